enum Dec { DFalse = 0, DTrue = 1, DUnknownBoth = 2 };
static inline Val &R(State &s, u32 slot) { return s.regs[s.fr.back().base + slot]; }
static inline Val get(State &s, const Operand &o) { return o.slot < 0 ? o.c : s.regs[s.fr.back().base + o.slot]; }

static const Set256 *fullPtr(u32 v) {
  if (v >= g_fullp.size()) g_fullp.resize(v + 1, nullptr);
  if (!g_fullp[v]) { Set256 *p = new Set256(kEmptySet); u32 w = g_vars[v].width; if (w <= 8) for (unsigned i = 0; i < (1u << w); ++i) p->set(i); else *p = kFullSet; g_fullp[v] = p; }
  return g_fullp[v];
}
static const Set256 *domOf(State &s, u32 v) { if (v < s.dom.size() && s.dom[v]) return s.dom[v]; return fullPtr(v); }
static void setDom(State &s, u32 v, const Set256 &x) {
  Expr *e = mkInSet(g_vars[v].e, x); if (v >= s.dom.size()) s.dom.resize(v + 1, nullptr);
  if (e->op == OInSet) s.dom[v] = e->set; else if (isTrue(e)) s.dom[v] = nullptr; else { static Set256 *emp = new Set256(kEmptySet); s.dom[v] = emp; }
}
static bool isMulti(State &s, u32 v) { return v < s.multi.size() && s.multi[v]; }
static void setModel(State &s, u32 v, u64 x) { if (v >= s.model.size()) s.model.resize(v + 1, 0); s.model[v] = x; }
static u64 evalM(State &s, Expr *e) { return (u64)evalExpr(e, s.model); }
static bool byteV(u32 v) { return g_vars[v].width <= 8; }

static std::string where(State &s) {
  std::string r;
  for (int i = (int)s.fr.size() - 1; i >= 0 && i >= (int)s.fr.size() - 12; --i) { r += (r.empty() ? "" : " < "); std::string n = demangle(s.fr[i].f->F->getName().str()); if (n.size() > 120) n = n.substr(0, 120) + "..."; r += n; }
  return r;
}
static void writeInputs(State &s, FILE *f) {
  newEvalEpoch();
  for (Input &in : s.inputs) { fprintf(f, "in %s ", in.name.c_str()); for (u32 v : in.vars) fprintf(f, "%02x", (unsigned)((v < s.model.size() ? s.model[v] : 0) & 0xff)); fprintf(f, "\n"); }
}
static void violation(State &s, const std::string &kind, const std::string &msg) {
  std::string w = where(s); std::string key = kind + ": " + msg + " @ " + w.substr(0, 300);
  lockS();
  int n = shm->nviol; bool dup = false;
  for (int i = 0; i < n && i < 64; ++i) if (!strncmp(shm->viol[i], key.c_str(), 511)) dup = true;
  if (dup || n >= g_maxviol || n >= 64) { unlockS(); return; }
  strncpy(shm->viol[n], key.c_str(), 511); shm->nviol = n + 1;
  if (n + 1 >= g_maxviol) shm->stop = 1;
  unlockS();
  FILE *f = fopen((g_out + "/viol-" + std::to_string(n) + ".txt").c_str(), "w");
  if (f) { fprintf(f, "kind %s\nmsg %s\nat %s\ntier %d\n", kind.c_str(), msg.c_str(), w.c_str(), g_tier); writeInputs(s, f); fclose(f); }
}

// ---- slices & queries
static void sliceFor(State &s, Expr *cond, std::vector<Expr *> &out) {
  std::vector<u32> vs, t; exprVars(cond, vs);
  std::set<u32> seen(vs.begin(), vs.end()); std::vector<char> used(s.cons.size(), 0); bool ch = true;
  while (ch) { ch = false;
    for (size_t i = 0; i < s.cons.size(); ++i) if (!used[i]) { exprVars(s.cons[i], t); bool hit = false; for (u32 v : t) if (seen.count(v)) { hit = true; break; }
      if (hit) { used[i] = 1; out.push_back(s.cons[i]); for (u32 v : t) if (seen.insert(v).second) ch = true; } } }
  for (u32 v : seen) if (byteV(v)) { const Set256 *d = domOf(s, v); if (d != fullPtr(v)) out.push_back(mkInSet(g_vars[v].e, *d)); }
}
typedef std::vector<std::pair<u32, u64>> Asg;
static u64 g_tabcount = 0;
// Is path condition & cond satisfiable?  Fills asg with values making it so.
static bool feasible(State &s, Expr *cond, Asg &asg, int *how, bool table = true) {
  asg.clear();
  if (isConst(cond)) { if (how) *how = 0; return cond->lo; }
  if (table && cond->op == OInSet) {
    u32 v = cond->a->lo; Set256 x = *domOf(s, v) & *cond->set;
    if (x.empty() || !isMulti(s, v)) {
      if (how) *how = 1; g_ss.table++;
      if (g_crosscheck && (++g_tabcount % (g_tabcount < 3000 ? 61 : g_crosscheck)) == 0) {
        g_ss.crosschecks++; std::vector<Expr *> c{mkInSet(g_vars[v].e, *domOf(s, v)), cond}; Res r = z3check(c, nullptr);
        if ((r == Res::SAT) != !x.empty()) engineError("table/z3 disagreement");
      }
      if (x.empty()) return false;
      asg.push_back({v, (u64)x.first()}); return true;
    }
  }
  if (how) *how = 2;
  std::vector<Expr *> c; sliceFor(s, cond, c); c.push_back(cond);
  Res r = z3check(c, &asg);
  if (r == Res::UNKNOWN) { shm->incomplete = 1; asg.clear(); fprintf(stderr, "z3 unknown\n"); return false; }
  return r == Res::SAT;
}
static void addCons(State &s, Expr *c) {
  if (isTrue(c)) return;
  if (c->op == OAnd && c->width == 1) { addCons(s, c->a); addCons(s, c->b); return; }
  if (c->op == OInSet) { u32 v = c->a->lo; setDom(s, v, *domOf(s, v) & *c->set); return; }
  // not(or(a,b)) => and(not a, not b)
  if (c->op == OXor && c->width == 1 && isTrue(c->b) && c->a->op == OOr) { addCons(s, mkNot(c->a->a)); addCons(s, mkNot(c->a->b)); return; }
  s.cons.push_back(c); std::vector<u32> vs; exprVars(c, vs);
  for (u32 v : vs) { if (v >= s.multi.size()) s.multi.resize(v + 1, false); s.multi[v] = true; }
}
static void applyAsg(State &s, const Asg &a) { for (auto &p : a) setModel(s, p.first, p.second); }

static State *clone(State &s) { shm->forks++; return new State(s); }
static bool g_pathdone;

// Decide a boolean; forks if both outcomes are possible. The instruction being
// executed must not have had side effects yet (the clone re-executes it).
static bool decide(State &s, Val v) {
  if (!v.e) return v.c & 1;
  Expr *e = v.e;
  if (s.forced >= 0) { bool r = s.forced; s.forced = -1; return r; }
  shm->branches.fetch_add(1, std::memory_order_relaxed);
  if (e->op == OInSet) {  // quick domain answer
    const Set256 *d = domOf(s, e->a->lo); Set256 x = *d & *e->set; g_ss.table++;
    if (x.empty()) return false; if (x == *d) return true;
  }
  bool m = evalM(s, e); g_ss.model_hits++;
  Expr *other = m ? mkNot(e) : e; Expr *same = m ? e : mkNot(e);
  Asg asg;
  if (!feasible(s, other, asg, nullptr)) return m;
  State *t = clone(s); applyAsg(*t, asg); addCons(*t, other); t->forced = !m; g_q.push_back(t);
  addCons(s, same);
  return m;
}
// Pin an expression to one value; forks a state for the remaining values.
static u64 concretize(State &s, Val v, unsigned w) {
  if (!v.e) return v.c;
  u64 x = evalM(s, v.e); Expr *eq = mkBin(OEq, v.e, mkConst(x, v.e->width));
  if (isTrue(eq)) return x;
  Expr *ne = mkNot(eq); Asg asg;
  if (feasible(s, ne, asg, nullptr)) { State *t = clone(s); applyAsg(*t, asg); addCons(*t, ne); t->forced = -1; g_q.push_back(t); addCons(s, eq); }
  return x;
}

struct PathEnd {};
static bool g_end;  // set when the current path must stop
static void endPath(State &s, const char *why) { (void)s; (void)why; g_end = true; }

static std::vector<u64> offsetsOf(State &s, Expr *e, bool *ok) {
  std::vector<u64> r; *ok = true;
  if (e->v1 < kManyVars && byteV(e->v1) && !isMulti(s, e->v1)) {
    const Set256 *d = domOf(s, e->v1); for (unsigned i = 0; i < 256; ++i) if (d->test(i)) r.push_back((u64)evalSingle(e, i));
    std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return r;
  }
  r.push_back(evalM(s, e)); std::vector<Expr *> base; sliceFor(s, e, base); Asg a;
  for (;;) {
    std::vector<Expr *> c = base; for (u64 x : r) c.push_back(mkNot(mkBin(OEq, e, mkConst(x, e->width))));
    Res q = z3check(c, &a); if (q == Res::UNSAT) return r; if (q == Res::UNKNOWN || r.size() >= 80) { *ok = false; return r; }
    std::vector<u64> m(g_vars.size(), 0); for (size_t i = 0; i < s.model.size(); ++i) m[i] = s.model[i]; for (auto &p : a) m[p.first] = p.second;
    r.push_back((u64)evalExpr(e, m));
  }
}
// Check that [addr, addr+n) is inside a live object. Returns the object.
static const Obj *checkAddr(State &s, u64 addr, u64 n, bool write, u64 *off) {
  const Obj *o = s.mem.find(addr, off);
  if (!o || *off > o->size || n > o->size - *off) {
    char b[160]; const Obj *a = s.mem.findAny(addr);
    if (!o && a && a->size) snprintf(b, sizeof b, "%s of %llu bytes in freed or dead object", write ? "write" : "read", (unsigned long long)n);
    else if (!o) snprintf(b, sizeof b, "%s of %llu bytes at invalid address 0x%llx", write ? "write" : "read", (unsigned long long)n, (unsigned long long)addr);
    else snprintf(b, sizeof b, "%s of %llu bytes at offset %lld outside object of %u bytes", write ? "write" : "read", (unsigned long long)n, (long long)(int64_t)(*off), o->size);
    violation(s, "memory", b); endPath(s, "mem"); return nullptr;
  }
  if (o->symsz) {  // size is symbolic: every value of it must suffice
    Expr *sz = s.symsz[(u32)(addr >> 32)], *in = mkBin(OUle, mkConst(*off + n, 64), sz); Asg asg;
    if (feasible(s, mkNot(in), asg, nullptr)) {
      State *t = clone(s); applyAsg(*t, asg); addCons(*t, mkNot(in)); char b[160]; snprintf(b, sizeof b, "%s of %llu bytes at offset %llu outside object of %llu bytes", write ? "write" : "read", (unsigned long long)n, (unsigned long long)*off, (unsigned long long)evalM(*t, sz)); violation(*t, "memory", b); delete t;
      if (!feasible(s, in, asg, nullptr)) { endPath(s, "mem"); return nullptr; } if (!evalM(s, in)) applyAsg(s, asg); addCons(s, in);
    } }
  if (write && o->ro) { violation(s, "memory", "write to constant object"); endPath(s, "mem"); return nullptr; }
  return o;
}
// For a symbolic address: make sure it lies in one object in bounds (forking).
// Returns false if path ended.
static bool pinObject(State &s, Expr *e, u64 n, bool write, u64 *addr) {
  u64 a = evalM(s, e), off; const Obj *o = checkAddr(s, a, n, write, &off); shm->memchecks_sym++;
  if (!o) { // this model is a witness; continue other values
    *addr = a; return false; }
  u64 base = a - off; Expr *inb = mkBin(OUle, mkBin(OSub, e, mkConst(base, 64)), mkConst(o->size - n, 64));
  Asg asg; Expr *out = mkNot(inb);
  if (feasible(s, out, asg, nullptr)) { State *t = clone(s); applyAsg(*t, asg); addCons(*t, out); t->forced = -1; g_q.push_back(t); addCons(s, inb); }
  *addr = a; return true;
}
static Expr *cellE(State &s, u64 addr, const Obj *o, u32 off, Memory::Cell c) {
  if (c.e) return c.e; if (!c.undef) return mkConst(c.v, 8);
  Expr *v = mkVar("uninit#" + std::to_string(s.uninit++), 8); (void)o;
  Obj *m = s.mem.mutObj(addr); Memory::Cell nc{v, 0, false}; s.mem.wcell(m, off, nc); return v;
}
static Val loadAt(State &s, u64 addr, unsigned w) {
  unsigned n = (w + 7) / 8; u64 off; const Obj *o = checkAddr(s, addr, n, false, &off); if (!o) return cv(0);
  const Page *p = s.mem.rpage(o, off); unsigned i = off & 255;
  if (n <= 8 && i + n <= 256) {
    if (!p) { if (o->zero) return cv(0); }
    else {
      bool conc = true; for (unsigned k = 0; k < n; ++k) if (p->isnc(i + k)) { conc = false; break; }
      if (conc) { u64 r = 0; memcpy(&r, p->data + i, n); return cv(r & maskw(w)); }
    }
  }
  Expr *r = nullptr; bool allc = true; u64 cr = 0;
  for (int k = n - 1; k >= 0; --k) {
    const Obj *oo = s.mem.find(addr, &off);
    Memory::Cell c = s.mem.rcell(oo, off + k); Expr *b = cellE(s, addr, oo, off + k, c);
    if (!isConst(b)) allc = false; else cr |= k < 8 ? b->lo << (8 * k) : 0;
    r = r ? mkConcat(r, b) : b;
  }
  if (allc && w <= 64) return cv(cr & maskw(w));
  if (r->width > w) r = mkExtract(r, 0, w);
  return fromE(r);
}
static void storeAt(State &s, u64 addr, unsigned w, Val v) {
  unsigned n = (w + 7) / 8; u64 off; const Obj *o = checkAddr(s, addr, n, true, &off); if (!o) return;
  Obj *m = s.mem.mutObj(addr);
  if (!v.e && n <= 8 && (off & 255) + n <= 256) {
    Page *p = s.mem.wpage(m, off); unsigned i = off & 255; u64 x = v.c; memcpy(p->data + i, &x, n);
    if (n == 8 && (i & 7) == 0) p->nonconc[i >> 6] &= ~(0xffull << (i & 63)); else for (unsigned k = 0; k < n; ++k) p->nonconc[(i + k) >> 6] &= ~(1ull << ((i + k) & 63));
    if (p->sym) for (unsigned k = 0; k < n; ++k) p->sym[i + k] = nullptr; return;
  }
  Expr *e = toE(v, w); if (e->width < n * 8) e = mkZExt(e, n * 8);
  for (unsigned k = 0; k < n; ++k) { Expr *b = mkExtract(e, 8 * k, 8); Memory::Cell c{isConst(b) ? nullptr : b, (u8)(isConst(b) ? b->lo : 0), false}; s.mem.wcell(m, off + k, c); }
}
static Val loadV(State &s, Val p, unsigned w) {
  if (!p.e) return loadAt(s, p.c, w);
  u64 a; unsigned n = (w + 7) / 8; if (!pinObject(s, p.e, n, false, &a)) return cv(0);
  bool ok; std::vector<u64> offs = offsetsOf(s, p.e, &ok);
  if (!ok) { u64 x = concretize(s, p, 64); return loadAt(s, x, w); }
  std::vector<std::pair<Val, std::vector<u64>>> groups;
  for (u64 x : offs) { Val v = loadAt(s, x, w); if (g_end) return v; bool f = false; for (auto &g : groups) if (g.first.c == v.c && g.first.e == v.e) { g.second.push_back(x); f = true; break; } if (!f) groups.push_back({v, {x}}); }
  std::stable_sort(groups.begin(), groups.end(), [](auto &x, auto &y) { return x.second.size() > y.second.size(); });
  Expr *r = toE(groups[0].first, w);
  for (size_t i = 1; i < groups.size(); ++i) { Expr *c = mkConst(0, 1); for (u64 x : groups[i].second) c = mkBin(OOr, c, mkBin(OEq, p.e, mkConst(x, 64))); r = mkIte(c, toE(groups[i].first, w), r); }
  return fromE(r);
}
static u64 pinAddr(State &s, Val p, u64 n, bool write) {  // fully concrete address
  if (!p.e) return p.c;
  u64 a; if (!pinObject(s, p.e, n, write, &a)) return 0;
  return concretize(s, p, 64);
}
static void doMemcpy(State &s, u64 dst, u64 src, u64 n) {
  if (!n) return; u64 so, dof; const Obj *a = checkAddr(s, src, n, false, &so); if (!a) return; const Obj *b = checkAddr(s, dst, n, true, &dof); if (!b) return;
  if (dst == src) return;
  std::vector<Memory::Cell> tmp(n);
  for (u64 i = 0; i < n; ++i) tmp[i] = s.mem.rcell(a, so + i);
  Obj *m = s.mem.mutObj(dst); for (u64 i = 0; i < n; ++i) s.mem.wcell(m, dof + i, tmp[i]);
}
static Expr *byteAt(State &s, u64 addr) { Val v = loadAt(s, addr, 8); return toE(v, 8); }
static std::string cstr(State &s, u64 addr) { std::string r; for (int i = 0; i < 2000; ++i) { Val v = loadAt(s, addr + i, 8); if (g_end || v.e || !v.c) break; r += (char)v.c; } return r; }

static u64 stackAlloc(State &s, u64 n) {
  if (!s.cur) return s.mem.allocStack(n);
  u64 a = s.mem.alloc(n, KStack, false); s.stk.push_back(a); return a;
}
static u32 stackTop(State &s) { return s.cur ? s.stk.size() : s.mem.stack.n; }
static void stackPop(State &s, u32 to) { if (!s.cur) { s.mem.popStack(to); return; } while (s.stk.size() > to) { s.mem.kill(s.stk.back()); s.stk.pop_back(); } }
static void switchTo(State &s, u32 t) {
  Ctx &o = s.th[s.cur]; o.fr.swap(s.fr); o.regs.swap(s.regs); o.stk.swap(s.stk);
  s.cur = t; Ctx &n = s.th[t]; n.fr.swap(s.fr); n.regs.swap(s.regs); n.stk.swap(s.stk);
}
static void doRet(State &s, const Val *vals, u32 n) {
  Frame f = s.fr.back(); stackPop(s, f.stackMark); s.fr.pop_back();
  if (s.fr.empty()) { endPath(s, "ret"); return; }
  s.regs.resize(f.base);
  for (u32 i = 0; i < n && i < f.nret; ++i) R(s, f.retDst + i) = vals[i];
}
static void pushFrame(State &s, DFunc *d, const std::vector<Val> &args, u32 retDst, u32 nret) {
  if (!d->decoded) { Decoder D; D.run(d); }
  Frame f{d, 0, (u32)s.regs.size(), stackTop(s), retDst, nret}; s.regs.resize(s.regs.size() + d->nslots, cv(0));
  if (args.size() < d->nargs) engineError("arg count mismatch calling " + d->F->getName().str());
  s.fr.push_back(f); for (u32 i = 0; i < d->nargs; ++i) R(s, i) = args[i];
  if (s.fr.size() > 3000) { violation(s, "stack", "recursion deeper than 3000 frames"); endPath(s, "stack"); }
}
static void takeEdge(State &s, const Edge &e) {
  if (__builtin_expect(g_cov != nullptr, 0)) g_cov[e.cov] = 1;
  Frame &f = s.fr.back();
  if (e.copies.size() == 1) { R(s, e.copies[0].dst) = get(s, e.copies[0].src); }
  else if (!e.copies.empty()) { Val tmp[64]; std::vector<Val> big; Val *t = tmp; if (e.copies.size() > 64) { big.resize(e.copies.size()); t = big.data(); }
    for (size_t i = 0; i < e.copies.size(); ++i) t[i] = get(s, e.copies[i].src); for (size_t i = 0; i < e.copies.size(); ++i) R(s, e.copies[i].dst) = t[i]; }
  f.pc = e.target;
}
static u64 doAlloc(State &s, u64 n, ObjKind k, bool zero) {
  if (n > (1u << 28)) { char b[80]; snprintf(b, 80, "allocation of %llu bytes", (unsigned long long)n); violation(s, "alloc", b); endPath(s, "alloc"); return 0; }
  s.allocated += n;
  return s.mem.alloc((u32)n, k, zero);
}
static u64 allocV(State &s, Val v, ObjKind k) {
  if (!v.e) return doAlloc(s, v.c, k, false);
  // symbolic size: find the largest feasible value and track the exact size
  u64 lo = evalM(s, v.e), hi = 1u << 24; Asg asg;
  if (feasible(s, mkBin(OUlt, mkConst(hi, 64), v.e), asg, nullptr)) { u64 n = concretize(s, v, 64); return doAlloc(s, n, k, false); }
  while (lo < hi) { u64 mid = lo + (hi - lo + 1) / 2; if (feasible(s, mkBin(OUle, mkConst(mid, 64), v.e), asg, nullptr)) lo = mid; else hi = mid - 1; }
  u64 p = doAlloc(s, lo, k, false); if (g_end) return 0; Asg a2;
  if (feasible(s, mkNot(mkBin(OEq, v.e, mkConst(lo, 64))), a2, nullptr)) { s.mem.mutObj(p)->symsz = true; s.symsz[(u32)(p >> 32)] = v.e; }
  return p;
}
// [p, p+n) lies inside one live object, for all values of p and n. Returns false if the path ended.
static bool rangeCheck(State &s, Val pv, Val nv) {
  u64 p = evalM(s, toE(pv, 64)), off; const Obj *o = s.mem.find(p, &off); shm->memchecks_sym++;
  if (!o) { violation(s, "memory", "range in no live object"); endPath(s, "mem"); return false; }
  u32 id = (u32)(p >> 32); Expr *sz = o->symsz ? s.symsz[id] : mkConst(o->size, 64), *rel = mkBin(OSub, toE(pv, 64), mkConst(Memory::addrOf(id), 64)), *n = toE(nv, 64);
  Expr *in = mkBin(OAnd, mkBin(OUle, rel, sz), mkBin(OUle, n, mkBin(OSub, sz, rel))); Asg asg;
  if (isConst(in) ? !in->lo : feasible(s, mkNot(in), asg, nullptr)) { State *t = clone(s); applyAsg(*t, asg); addCons(*t, mkNot(in)); violation(*t, "memory", "range is not inside the object it starts in"); delete t; if (!feasible(s, in, asg, nullptr)) { endPath(s, "mem"); return false; } if (!evalM(s, in)) applyAsg(s, asg); addCons(s, in); }
  return true;
}
static void doFree(State &s, u64 p, ObjKind k) {
  if (!p) return; u64 off; const Obj *o = s.mem.find(p, &off);
  if (!o || off != 0 || o->kind != k) { violation(s, "memory", !o ? "free of invalid or already freed pointer" : off ? "free of interior pointer" : "mismatching deallocation"); endPath(s, "free"); return; }
  s.mem.kill(p);
}
static void coverHit(const std::string &n) {
  lockS(); int i; for (i = 0; i < shm->ncover; ++i) if (!strcmp(shm->cover[i], n.c_str())) break;
  if (i == shm->ncover && i < 128) { strncpy(shm->cover[i], n.c_str(), 63); shm->ncover++; } if (i < 128) shm->covern[i]++; unlockS();
}
static void finishPath(State &s);

static Val binV(Op op, Val a, Val b, unsigned w) {
  if (!a.e && !b.e && w <= 64) {
    u64 m = maskw(w), x = a.c, y = b.c;
    switch (op) {
    case OAdd: return cv((x + y) & m); case OSub: return cv((x - y) & m); case OMul: return cv((x * y) & m);
    case OAnd: return cv(x & y); case OOr: return cv(x | y); case OXor: return cv(x ^ y);
    case OShl: return cv(y >= w ? 0 : (x << y) & m); case OLShr: return cv(y >= w ? 0 : x >> y); case OAShr: return cv((u64)(sext64(x, w) >> (y >= w ? w - 1 : y)) & m);
    default: return cv((u64)foldBin(op, x, y, w));
    }
  }
  return fromE(mkBin(op, toE(a, w), toE(b, w)));
}
static Val cmpV(unsigned pred, Val a, Val b, unsigned w) {
  if (!a.e && !b.e) {
    u64 x = a.c, y = b.c; i64 sx = sext64(x, w), sy = sext64(y, w);
    switch (pred) {
    case CmpInst::ICMP_EQ: return cv(x == y); case CmpInst::ICMP_NE: return cv(x != y);
    case CmpInst::ICMP_UGT: return cv(x > y); case CmpInst::ICMP_UGE: return cv(x >= y); case CmpInst::ICMP_ULT: return cv(x < y); case CmpInst::ICMP_ULE: return cv(x <= y);
    case CmpInst::ICMP_SGT: return cv(sx > sy); case CmpInst::ICMP_SGE: return cv(sx >= sy); case CmpInst::ICMP_SLT: return cv(sx < sy); default: return cv(sx <= sy);
    }
  }
  Expr *x = toE(a, w), *y = toE(b, w);
  switch (pred) {
  case CmpInst::ICMP_EQ: return fromE(mkBin(OEq, x, y)); case CmpInst::ICMP_NE: return fromE(mkNot(mkBin(OEq, x, y)));
  case CmpInst::ICMP_UGT: return fromE(mkBin(OUlt, y, x)); case CmpInst::ICMP_UGE: return fromE(mkBin(OUle, y, x)); case CmpInst::ICMP_ULT: return fromE(mkBin(OUlt, x, y)); case CmpInst::ICMP_ULE: return fromE(mkBin(OUle, x, y));
  case CmpInst::ICMP_SGT: return fromE(mkBin(OSlt, y, x)); case CmpInst::ICMP_SGE: return fromE(mkBin(OSle, y, x)); case CmpInst::ICMP_SLT: return fromE(mkBin(OSlt, x, y)); default: return fromE(mkBin(OSle, x, y));
  }
}
static double asD(u64 x, unsigned w) { if (w == 32) { float f; u32 y = x; memcpy(&f, &y, 4); return f; } double d; memcpy(&d, &x, 8); return d; }
static u64 fromD(double d, unsigned w) { if (w == 32) { float f = d; u32 y; memcpy(&y, &f, 4); return y; } u64 x; memcpy(&x, &d, 8); return x; }

// returns true if handled completely; pc already advanced before
static void doIntrinsic(State &s, const Inst &in) {
  std::vector<Val> a; a.reserve(in.ops.size()); for (auto &o : in.ops) a.push_back(get(s, o));
  auto ret = [&](Val v) { if (in.ndst) R(s, in.dst) = v; };
  unsigned w = in.argw.empty() ? 0 : in.argw[0];
  switch (in.intrin) {
  case XMalloc: { u64 n = concretize(s, a[0], 64); ret(cv(doAlloc(s, n, KMalloc, false))); return; }
  case XCalloc: { u64 n = concretize(s, a[0], 64) * concretize(s, a[1], 64); ret(cv(doAlloc(s, n, KMalloc, true))); return; }
  case XRealloc: { u64 n = concretize(s, a[1], 64); u64 p = concretize(s, a[0], 64); u64 q = doAlloc(s, n, KMalloc, false); if (g_end) return; if (p) { u64 off; const Obj *o = s.mem.find(p, &off); if (!o) { violation(s, "memory", "realloc of invalid pointer"); endPath(s, ""); return; } doMemcpy(s, q, p, std::min<u64>(n, o->size)); doFree(s, p, KMalloc); } ret(cv(q)); return; }
  case XNew: { u64 n = concretize(s, a[0], 64); ret(cv(doAlloc(s, n, KHeapNew, false))); return; }
  case XSymRange: rangeCheck(s, a[0], a[1]); return;
  case XNewArr: ret(cv(allocV(s, a[0], KHeapNewArr))); return;
  case XFree: doFree(s, concretize(s, a[0], 64), KMalloc); return;
  case XDel: doFree(s, concretize(s, a[0], 64), KHeapNew); return;
  case XDelArr: doFree(s, concretize(s, a[0], 64), KHeapNewArr); return;
  case XMemcpy: { u64 n = concretize(s, a[2], 64); if (n) { u64 d = pinAddr(s, a[0], n, true); if (g_end) return; u64 sr = pinAddr(s, a[1], n, false); if (g_end) return; doMemcpy(s, d, sr, n); } ret(a[0]); return; }
  case XMemset: {
    if (a[2].e && !a[0].e && !a[1].e && !a[1].c) {  // zeroing all of a fresh object, of any size
      u64 off; const Obj *o = s.mem.find(a[0].c, &off);
      if (o && !off && !o->root && !o->ro) { if (rangeCheck(s, a[0], a[2])) { s.mem.mutObj(a[0].c)->zero = true; ret(a[0]); } return; } }
    u64 n = concretize(s, a[2], 64); if (n) { u64 d = pinAddr(s, a[0], n, true); if (g_end) return; u64 off; const Obj *o = checkAddr(s, d, n, true, &off); if (!o) return; Obj *m = s.mem.mutObj(d);
      Expr *b = a[1].e ? mkExtract(toE(a[1], in.argw[1]), 0, 8) : nullptr; if (b && isConst(b)) { a[1] = cv(b->lo); b = nullptr; }
      for (u64 i = 0; i < n; ++i) s.mem.wcell(m, off + i, {b, (u8)a[1].c, false}); } ret(a[0]); return; }
  case XMemcmp: case XBcmp: {
    u64 n = concretize(s, a[2], 64); if (!n) { ret(cv(0)); return; }
    u64 p = pinAddr(s, a[0], n, false); if (g_end) return; u64 q = pinAddr(s, a[1], n, false); if (g_end) return;
    u64 off; if (!checkAddr(s, p, n, false, &off) || !checkAddr(s, q, n, false, &off)) return;
    Expr *r = mkConst(0, 32);
    std::vector<std::pair<Expr *, Expr *>> bs; 
    for (u64 i = 0; i < n; ++i) { Expr *x = byteAt(s, p + i), *y = byteAt(s, q + i); if (x == y) continue; bs.push_back({x, y}); if (isConst(x) && isConst(y)) break; }
    for (int i = (int)bs.size() - 1; i >= 0; --i) { Expr *x = bs[i].first, *y = bs[i].second;
      if (in.intrin == XBcmp) r = mkIte(mkBin(OEq, x, y), r, mkConst(1, 32));
      else r = mkIte(mkBin(OEq, x, y), r, mkIte(mkBin(OUlt, x, y), mkConst(0xffffffff, 32), mkConst(1, 32))); }
    ret(fromE(r)); return; }
  case XAbort: { std::string n = in.callee ? demangle(in.callee->F->getName().str()) : "abort"; std::string extra;
    if (n.find("__assert_fail") != std::string::npos && a.size() >= 4) extra = ": " + cstr(s, a[0].c);
    else if (n.find("glibcxx_assert_fail") != std::string::npos && a.size() >= 4 && a[3].c) extra = ": " + cstr(s, a[3].c);
    g_end = false; violation(s, "abort", n + extra); endPath(s, "abort"); return; }
  case XTrap: violation(s, "abort", "trap instruction"); endPath(s, "abort"); return;
  case XAtexit: ret(cv(0)); return;
  case XGuardAcq: { Val v = loadV(s, a[0], 8); ret(cv(v.c ? 0 : 1)); return; }
  case XGuardRel: storeAt(s, a[0].c, 8, cv(1)); return;
  case XSymMake: {
    u64 p = concretize(s, a[0], 64), n = concretize(s, a[1], 64); std::string nm = cstr(s, a[2].c); Input inp; inp.name = nm; inp.n = n; u64 off;
    int k = 0; for (auto &i : s.inputs) if (i.name == nm) ++k;
    if (n) { if (!checkAddr(s, p, n, true, &off)) return; Obj *m = s.mem.mutObj(p);
      for (u64 i = 0; i < n; ++i) { Expr *v = mkVar(nm + (k ? "#" + std::to_string(k) : "") + "[" + std::to_string(i) + "]", 8); inp.vars.push_back(v->lo); s.mem.wcell(m, off + i, {v, 0, false}); } }
    s.inputs.push_back(inp); return; }
  case XSymChoose: {
    u64 n = concretize(s, a[0], 32); std::string nm = cstr(s, a[1].c); int k = 0; for (auto &i : s.inputs) if (i.name == nm) ++k;
    Expr *v = mkVar(nm + (k ? "#" + std::to_string(k) : ""), 8);
    if (n == 0 || n > 256) engineError("sym_choose range");
    if (n < 256) { Expr *c = mkBin(OUlt, v, mkConst(n, 8)); addCons(s, c); if (v->lo < s.model.size() && s.model[v->lo] >= n) setModel(s, v->lo, 0); }
    // all values fork; the input is logged in each of them by re-execution order: log first
    for (u64 i = 1; i < n; ++i) { State *t = clone(s); addCons(*t, mkBin(OEq, v, mkConst(i, 8))); setModel(*t, v->lo, i); t->inputs.push_back({nm, 1, {(u32)v->lo}}); 
      if (in.ndst) t->regs[t->fr.back().base + in.dst] = cv(i); t->steps++; g_q.push_back(t); }
    addCons(s, mkBin(OEq, v, mkConst(0, 8))); setModel(s, v->lo, 0); s.inputs.push_back({nm, 1, {(u32)v->lo}}); ret(cv(0)); return; }
  case XSymAssume: {
    if (!a[0].e) { if (!(a[0].c & 1)) { shm->killed++; g_end = true; g_pathdone = false; } return; }
    Expr *c = toE(a[0], in.argw[0]); if (c->width != 1) c = mkNot(mkBin(OEq, c, mkConst(0, c->width)));
    if (evalM(s, c)) { Asg x; (void)x; addCons(s, c); return; }
    Asg asg; if (!feasible(s, c, asg, nullptr)) { shm->killed++; g_end = true; return; }
    applyAsg(s, asg); addCons(s, c); return; }
  case XSymAssert: {
    shm->asserts++; std::string msg;
    if (!a[0].e) { shm->asserts_const++; if (!(a[0].c & 1)) { violation(s, "assert", cstr(s, a[1].c)); endPath(s, "assert"); } return; }
    Expr *c = toE(a[0], in.argw[0]); if (c->width != 1) c = mkNot(mkBin(OEq, c, mkConst(0, c->width)));
    if (!isConst(c) && !evalM(s, c)) { violation(s, "assert", cstr(s, a[1].c)); }
    else { int how; Asg asg; Expr *nc = mkNot(c); bool f = feasible(s, nc, asg, &how, false); if (how == 0) shm->asserts_const++; else if (how == 1) shm->asserts_table++; else shm->asserts_z3++;
      if (f) { State *t = clone(s); applyAsg(*t, asg); addCons(*t, nc); violation(*t, "assert", cstr(s, a[1].c)); delete t; } else return; }
    Asg asg; if (!feasible(s, c, asg, nullptr)) { endPath(s, "assert"); return; } if (!evalM(s, c)) applyAsg(s, asg); addCons(s, c); return; }
  case XSymFail: violation(s, "assert", cstr(s, a[0].c)); endPath(s, "assert"); return;
  case XSymCover: coverHit(cstr(s, a[0].c)); return;
  case XSymTrace: s.trace.push_back({a[0], 64}); return;
  case XSymIsSymbolic: ret(cv(a[0].e != nullptr)); return;
  case XSymConcretize: ret(cv(concretize(s, a[0], 64))); return;
  case XSymLog: fprintf(stderr, "LOG %s %llx%s\n", cstr(s, a[0].c).c_str(), (unsigned long long)(a[1].e ? evalM(s, a[1].e) : a[1].c), a[1].e ? " (sym)" : ""); return;
  case XSymTier: ret(cv(g_tier)); return;
  case XSymDone: finishPath(s); g_end = true; return;
  case XUMax: { Val c = cmpV(CmpInst::ICMP_UGT, a[0], a[1], w); ret(!c.e ? (c.c ? a[0] : a[1]) : fromE(mkIte(c.e, toE(a[0], w), toE(a[1], w)))); return; }
  case XUMin: { Val c = cmpV(CmpInst::ICMP_ULT, a[0], a[1], w); ret(!c.e ? (c.c ? a[0] : a[1]) : fromE(mkIte(c.e, toE(a[0], w), toE(a[1], w)))); return; }
  case XSMax: { Val c = cmpV(CmpInst::ICMP_SGT, a[0], a[1], w); ret(!c.e ? (c.c ? a[0] : a[1]) : fromE(mkIte(c.e, toE(a[0], w), toE(a[1], w)))); return; }
  case XSMin: { Val c = cmpV(CmpInst::ICMP_SLT, a[0], a[1], w); ret(!c.e ? (c.c ? a[0] : a[1]) : fromE(mkIte(c.e, toE(a[0], w), toE(a[1], w)))); return; }
  case XAbs: { Val c = cmpV(CmpInst::ICMP_SLT, a[0], cv(0), w); Val n = binV(OSub, cv(0), a[0], w); ret(!c.e ? (c.c ? n : a[0]) : fromE(mkIte(c.e, toE(n, w), toE(a[0], w)))); return; }
  case XCtpop: { u64 x = concretize(s, a[0], w); ret(cv(__builtin_popcountll(x))); return; }
  case XCtlz: { u64 x = concretize(s, a[0], w); ret(cv(x ? __builtin_clzll(x) - (64 - w) : w)); return; }
  case XCttz: { u64 x = concretize(s, a[0], w); ret(cv(x ? __builtin_ctzll(x) : w)); return; }
  case XBswap: { Expr *e = toE(a[0], w), *r = nullptr; for (unsigned i = 0; i < w; i += 8) { Expr *b = mkExtract(e, i, 8); r = r ? mkConcat(r, b) : b; } ret(fromE(r)); return; }
  case XUAddO: case XUSubO: case XUMulO: case XSAddO: case XSSubO: case XSMulO: {
    Expr *x = toE(a[0], w), *y = toE(a[1], w); bool sg = in.intrin >= XSAddO; Op op = in.intrin == XUAddO || in.intrin == XSAddO ? OAdd : in.intrin == XUSubO || in.intrin == XSSubO ? OSub : OMul;
    unsigned W = op == OMul ? 2 * w : w + 1; if (W > 128) W = 128; Expr *X = sg ? mkSExt(x, W) : mkZExt(x, W), *Y = sg ? mkSExt(y, W) : mkZExt(y, W); Expr *r = mkBin(op, x, y), *RR = mkBin(op, X, Y);
    Expr *o = mkNot(mkBin(OEq, RR, sg ? mkSExt(r, W) : mkZExt(r, W))); R(s, in.dst) = fromE(r); R(s, in.dst + 1) = fromE(o); return; }
  case XUSubSat: { Val c = cmpV(CmpInst::ICMP_ULT, a[0], a[1], w); Val r = binV(OSub, a[0], a[1], w); ret(!c.e ? (c.c ? cv(0) : r) : fromE(mkIte(c.e, mkConst(0, w), toE(r, w)))); return; }
  case XUAddSat: { Val r = binV(OAdd, a[0], a[1], w); Val c = cmpV(CmpInst::ICMP_ULT, r, a[0], w); ret(!c.e ? (c.c ? cv(maskw(w)) : r) : fromE(mkIte(c.e, mkConst(maskw(w), w), toE(r, w)))); return; }
  case XFshl: case XFshr: { u64 sh = concretize(s, a[2], w) % w; Expr *hi = toE(a[0], w), *lo = toE(a[1], w);
      if (in.intrin == XFshl) ret(sh ? fromE(mkBin(OOr, mkBin(OShl, hi, mkConst(sh, w)), mkBin(OLShr, lo, mkConst(w - sh, w)))) : a[0]);
      else ret(sh ? fromE(mkBin(OOr, mkBin(OShl, hi, mkConst(w - sh, w)), mkBin(OLShr, lo, mkConst(sh, w)))) : a[1]); return; }
  case XCopyArg: for (u32 i = 0; i < in.ndst; ++i) R(s, in.dst + i) = a[i]; return;
  case XStackSave: ret(cv(0)); return;
  case XObjSize: ret(cv(a[1].c ? 0 : maskw(in.w))); return;
  case XIsConst: ret(cv(0)); return;
  case XFAbs: ret(cv(fromD(std::fabs(asD(concretize(s, a[0], w), w)), w))); return;
  case XNop: return;
  case XVaStart: { u64 p = a[0].c; storeAt(s, p, 32, cv(48)); storeAt(s, p + 4, 32, cv(304)); storeAt(s, p + 8, 64, cv(s.fr.back().va)); storeAt(s, p + 16, 64, cv(0)); return; }
  case XVaCopy: doMemcpy(s, a[0].c, a[1].c, 24); return;
  case XThreadNew: {
    if (s.th.empty()) s.th.emplace_back();
    u64 fa = concretize(s, a[0], 64); u32 id = fa >> 32; if (id < kFuncIdBase || id - kFuncIdBase >= g_func_by_id.size()) engineError("thread entry"); u32 t = s.th.size(), me = s.cur; s.th.emplace_back();
    switchTo(s, t); pushFrame(s, g_func_by_id[id - kFuncIdBase], {a[1]}, 0, 0); switchTo(s, me); ret(cv(t)); return; }
  case XThreadSwitch: { u64 t = concretize(s, a[0], 32); if (t >= s.th.size()) { if (t == 0 && s.cur == 0) return; engineError("thread switch"); } if (t != s.cur) switchTo(s, t); return; }
  default: engineError("call of unmodelled external " + (in.callee ? demangle(in.callee->F->getName().str()) : std::string("?")) + " from " + where(s));
  }
}

static void finishPath(State &s) {
  u64 n = ++shm->paths; static u64 mine = 0; ++mine;
  if ((mine & (mine - 1)) == 0 || mine % 4096 == 0) {  // sample for validation against the native build
    u64 k = shm->samples++;
    if (k < 200) {
      u64 h = 1469598103934665603ull; for (auto &t : s.trace) { u64 v = t.first.e ? evalM(s, t.first.e) : t.first.c; for (int i = 0; i < 8; ++i) { h ^= (v >> (8 * i)) & 0xff; h *= 1099511628211ull; } }
      FILE *f = fopen((g_out + "/sample-" + std::to_string(k) + ".txt").c_str(), "w"); if (f) { fprintf(f, "trace %016llx\ntier %d\n", (unsigned long long)h, g_tier); writeInputs(s, f); fclose(f); }
    }
  }
  (void)n;
}

static bool g_ckpt;
// Run one state until it ends. May push forks.
static void step(State &s) {
  Frame &f = s.fr.back(); const Inst &in = f.f->insts[f.pc]; 
  switch (in.op) {
  case INop: f.pc++; return;
  case IBin: {
    Val a = get(s, in.ops[0]), b = get(s, in.ops[1]);
    if (in.bop == OUDiv || in.bop == OSDiv || in.bop == OURem || in.bop == OSRem) { Val z = cmpV(CmpInst::ICMP_EQ, b, cv(0), in.w); if (decide(s, z)) { violation(s, "div", "division by zero"); endPath(s, "div"); return; } }
    R(s, in.dst) = binV(in.bop, a, b, in.w); s.fr.back().pc++; return; }
  case ICmpI: R(s, in.dst) = cmpV(in.pred, get(s, in.ops[0]), get(s, in.ops[1]), in.w2); f.pc++; return;
  case ISelect: {
    Val c = get(s, in.ops[0]); u32 n = in.ndst; bool t;
    if (c.e && !in.pred) {
      Val tmp[32]; for (u32 i = 0; i < n; ++i) { Val x = get(s, in.ops[1 + i]), y = get(s, in.ops[1 + n + i]); unsigned w = in.leaves[i].w; tmp[i] = (!x.e && !y.e && x.c == y.c && w <= 64) ? x : fromE(mkIte(c.e, toE(x, w), toE(y, w))); }
      for (u32 i = 0; i < n; ++i) R(s, in.dst + i) = tmp[i]; f.pc++; return;
    }
    t = decide(s, c); for (u32 i = 0; i < n; ++i) { Val v = get(s, in.ops[1 + (t ? 0 : n) + i]); R(s, in.dst + i) = v; } s.fr.back().pc++; return; }
  case IZExtI: { Val a = get(s, in.ops[0]); if (!a.e && in.w <= 64) R(s, in.dst) = a; else R(s, in.dst) = {0, mkZExt(toE(a, in.w2), in.w)}; if (R(s, in.dst).e) R(s, in.dst) = fromE(R(s, in.dst).e); f.pc++; return; }
  case ISExtI: { Val a = get(s, in.ops[0]); if (!a.e && in.w <= 64) R(s, in.dst) = cv((u64)sext64(a.c, in.w2) & maskw(in.w)); else R(s, in.dst) = fromE(mkSExt(toE(a, in.w2), in.w)); f.pc++; return; }
  case ITrunc: { Val a = get(s, in.ops[0]); if (!a.e) R(s, in.dst) = cv(a.c & maskw(in.w)); else R(s, in.dst) = fromE(mkExtract(a.e, 0, in.w)); f.pc++; return; }
  case ICopy: { if (in.ndst == 1) { R(s, in.dst) = get(s, in.ops[0]); } else { std::vector<Val> t; for (u32 i = 0; i < in.ndst; ++i) t.push_back(get(s, in.ops[i])); for (u32 i = 0; i < in.ndst; ++i) R(s, in.dst + i) = t[i]; } f.pc++; return; }
  case ILoad: {
    Val p = get(s, in.ops[0]);
    if (in.ndst == 1) { Val v = loadV(s, p, in.leaves[0].w); if (g_end) return; R(s, in.dst) = v; s.fr.back().pc++; return; }
    std::vector<Val> t; for (auto &l : in.leaves) { t.push_back(loadV(s, binV(OAdd, p, cv(l.off), 64), l.w)); if (g_end) return; }
    for (u32 i = 0; i < in.ndst; ++i) R(s, in.dst + i) = t[i]; s.fr.back().pc++; return; }
  case IStore: {
    Val p = get(s, in.ops[0]); u64 sz = 0; for (auto &l : in.leaves) sz = std::max<u64>(sz, l.off + (l.w + 7) / 8);
    u64 a = pinAddr(s, p, sz, true); if (g_end) return;
    for (size_t i = 0; i < in.leaves.size(); ++i) { storeAt(s, a + in.leaves[i].off, in.leaves[i].w, get(s, in.ops[1 + i])); if (g_end) return; } s.fr.back().pc++; return; }
  case IGep: {
    Val p = get(s, in.ops[0]); p = binV(OAdd, p, cv(in.aux[0]), 64);
    for (size_t i = 1, k = 1; i < in.aux.size(); i += 2, ++k) {
      Val ix = get(s, in.ops[k]); unsigned w = in.aux[i + 1]; if (w < 64) ix = ix.e ? fromE(mkSExt(ix.e, 64)) : cv((u64)sext64(ix.c, w));
      p = binV(OAdd, p, binV(OMul, ix, cv(in.aux[i]), 64), 64); }
    R(s, in.dst) = p; f.pc++; return; }
  case IAlloca: { u64 n = concretize(s, get(s, in.ops[0]), 64) * in.aux[0]; R(s, in.dst) = cv(stackAlloc(s, n)); s.fr.back().pc++; return; }
  case IBr: takeEdge(s, in.edges[0]); return;
  case ICondBr: { Val c = get(s, in.ops[0]); bool t = decide(s, c); takeEdge(s, in.edges[t ? 0 : 1]); return; }
  case ISwitchI: {
    Val v = get(s, in.ops[0]);
    if (!v.e) { for (size_t i = 0; i < in.aux.size(); i += 2) if (in.aux[i] == v.c) { takeEdge(s, in.edges[in.aux[i + 1]]); return; } takeEdge(s, in.edges[0]); return; }
    // group by target, fork for each feasible target other than the model's
    std::vector<Expr *> cond(in.edges.size(), mkConst(0, 1)); Expr *any = mkConst(0, 1);
    for (size_t i = 0; i < in.aux.size(); i += 2) { Expr *q = mkBin(OEq, v.e, mkConst(in.aux[i], in.w2)); cond[in.aux[i + 1]] = mkBin(OOr, cond[in.aux[i + 1]], q); any = mkBin(OOr, any, q); }
    cond[0] = mkNot(any); int mine = -1; shm->branches.fetch_add(1, std::memory_order_relaxed);
    for (size_t i = 0; i < cond.size(); ++i) if (isConst(cond[i]) ? cond[i]->lo : evalM(s, cond[i])) { mine = i; break; }
    for (size_t i = 0; i < cond.size(); ++i) if ((int)i != mine) { Asg asg; if (feasible(s, cond[i], asg, nullptr)) { State *t = clone(s); applyAsg(*t, asg); addCons(*t, cond[i]); takeEdge(*t, in.edges[i]); g_q.push_back(t); } }
    addCons(s, cond[mine]); takeEdge(s, in.edges[mine]); return; }
  case IRet: { Val tmp[32]; u32 n = in.ops.size(); for (u32 i = 0; i < n; ++i) tmp[i] = get(s, in.ops[i]); if (s.fr.size() == 1) { if (s.cur) engineError("thread entry returned"); finishPath(s); g_end = true; return; } doRet(s, tmp, n); return; }
  case IUnreach: violation(s, "abort", "unreachable code executed"); endPath(s, "unreachable"); return;
  case ICall: {
    DFunc *callee = in.callee; u32 first = 0; int intrin = in.intrin;
    if (!callee) {
      Val p = get(s, in.ops[0]); u64 x = concretize(s, p, 64); u32 id = x >> 32; first = 1;
      if (id < kFuncIdBase || id - kFuncIdBase >= g_func_by_id.size() || (x & 0xffffffff) != kObjOff) { violation(s, "memory", "call through invalid function pointer"); endPath(s, "call"); return; }
      callee = g_func_by_id[id - kFuncIdBase]; intrin = intrinFor(callee->F);
    }
    if (intrin != XUser) {
      if (first) { // indirect call of a library function
        Inst tmp = in; tmp.ops.erase(tmp.ops.begin()); tmp.callee = callee; tmp.intrin = intrin; s.fr.back().pc++; size_t q = g_q.size(); u32 pcs = s.fr.back().pc; doIntrinsic(s, tmp); (void)pcs;
        for (size_t i = q; i < g_q.size(); ++i) if (intrin != XSymChoose) g_q[i]->fr.back().pc--; return; }
      s.fr.back().pc++; size_t q = g_q.size(); doIntrinsic(s, in);
      // clones made inside re-execute the call
      if (intrin != XSymChoose) for (size_t i = q; i < g_q.size(); ++i) g_q[i]->fr.back().pc--;
      return;
    }
    std::vector<Val> args; args.reserve(in.ops.size()); for (size_t i = first; i < in.ops.size(); ++i) args.push_back(get(s, in.ops[i]));
    u32 dst = in.dst, nd = in.ndst; std::vector<u64> aux = in.aux; s.fr.back().pc++;
    u32 mark = stackTop(s); u64 va = 0; std::vector<u16> argw = in.argw;
    for (u64 bv : aux) { u32 ai = bv >> 32, sz = (u32)bv; u64 cp = stackAlloc(s, sz); doMemcpy(s, cp, args[ai].c, sz); if (g_end) return; args[ai] = cv(cp); }
    if (callee->F->isVarArg()) {  // variable arguments: one 8-byte slot each in an overflow area
      u32 fixed = 0; for (Argument &A : callee->F->args()) fixed += leavesOf(A.getType()).size();
      va = stackAlloc(s, 8 * (args.size() - fixed) + 8); for (size_t i = fixed; i < args.size(); ++i) { u16 aw = argw[i]; if (aw > 64) engineError("wide variable argument"); storeAt(s, va + 8 * (i - fixed), 64, args[i].e ? fromE(mkZExt(toE(args[i], aw), 64)) : args[i]); }
    }
    pushFrame(s, callee, args, dst, nd); if (!g_end) { s.fr.back().stackMark = mark; s.fr.back().va = va; } return; }
  case IFBin: { unsigned w = in.w; double x = asD(concretize(s, get(s, in.ops[0]), w), w), y = asD(concretize(s, get(s, in.ops[1]), w), w), r = 0; switch (in.pred) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmod(x, y); } R(s, in.dst) = cv(fromD(r, w)); s.fr.back().pc++; return; }
  case IFNeg: { R(s, in.dst) = cv(fromD(-asD(concretize(s, get(s, in.ops[0]), in.w), in.w), in.w)); s.fr.back().pc++; return; }
  case IFCmp: { unsigned w = in.w2; double x = asD(concretize(s, get(s, in.ops[0]), w), w), y = asD(concretize(s, get(s, in.ops[1]), w), w); bool un = std::isnan(x) || std::isnan(y); int p = in.pred; bool r = ((p & 1) && !un && x == y) || ((p & 2) && !un && x > y) || ((p & 4) && !un && x < y) || ((p & 8) && un); R(s, in.dst) = cv(r); s.fr.back().pc++; return; }
  case IFCast: { Val v = get(s, in.ops[0]); u64 x = concretize(s, v, in.w2); u64 r; switch (in.pred) { case Instruction::SIToFP: r = fromD((double)sext64(x, in.w2), in.w); break; case Instruction::UIToFP: r = fromD((double)x, in.w); break; case Instruction::FPToSI: r = (u64)(i64)asD(x, in.w2) & maskw(in.w); break; case Instruction::FPToUI: r = (u64)asD(x, in.w2) & maskw(in.w); break; default: r = fromD(asD(x, in.w2), in.w); } R(s, in.dst) = cv(r); s.fr.back().pc++; return; }
  case IAtomicRmw: {
    u64 a = pinAddr(s, get(s, in.ops[0]), in.w / 8, true); if (g_end) return; Val o = loadAt(s, a, in.w); if (g_end) return; Val v = get(s, in.ops[1]), n = v;
    switch (in.pred) { case AtomicRMWInst::Xchg: break; case AtomicRMWInst::Add: n = binV(OAdd, o, v, in.w); break; case AtomicRMWInst::Sub: n = binV(OSub, o, v, in.w); break; case AtomicRMWInst::And: n = binV(OAnd, o, v, in.w); break; case AtomicRMWInst::Or: n = binV(OOr, o, v, in.w); break; default: engineError("atomicrmw"); }
    storeAt(s, a, in.w, n); R(s, in.dst) = o; s.fr.back().pc++; return; }
  case ICmpXchg: {
    u64 a = pinAddr(s, get(s, in.ops[0]), in.w / 8, true); if (g_end) return; Val o = loadAt(s, a, in.w); if (g_end) return; Val eq = cmpV(CmpInst::ICMP_EQ, o, get(s, in.ops[1]), in.w);
    bool t = decide(s, eq); if (t) storeAt(s, a, in.w, get(s, in.ops[2])); R(s, in.dst) = o; R(s, in.dst + 1) = cv(t); s.fr.back().pc++; return; }
  default: engineError("bad op");
  }
}

// ------------------------------------------------------------ driver
static void flushStats() {
  static SolverStats last; SolverStats &c = g_ss;
  shm->z3q += c.z3_queries - last.z3_queries; shm->z3sat += c.z3_sat - last.z3_sat; shm->z3unsat += c.z3_unsat - last.z3_unsat; shm->cache += c.cache_hits - last.cache_hits; shm->table += c.table - last.table;
  shm->modelhits += c.model_hits - last.model_hits; shm->crosscheck += c.crosschecks - last.crosschecks; shm->z3us += (u64)((c.z3_time - last.z3_time) * 1e6); last = c;
}
static std::vector<pid_t> g_children;
static void maybeSplit() {
  if (g_q.size() < 2 || shm->active >= g_maxproc) return;
  int a = shm->active; if (a >= g_maxproc || !shm->active.compare_exchange_strong(a, a + 1)) return;
  fflush(stdout); fflush(stderr); flushStats();
  size_t half = g_q.size() / 2; pid_t p = fork();
  if (p < 0) { shm->active--; return; }
  if (p == 0) { g_children.clear(); shm->workers++; // child takes the older half
    g_q.resize(half); return; }
  g_children.push_back(p);
  for (size_t i = 0; i < half; ++i) delete g_q[i];
  g_q.erase(g_q.begin(), g_q.begin() + half);
}
static State *g_cur;
static void explore() {
  u64 icount = 0; 
  while (!g_q.empty()) {
    if (shm->stop) { break; }
    if (now() > g_deadline) { shm->incomplete = 1; break; }
    State *s = g_q.back(); g_q.pop_back(); g_cur = s; g_end = false; u64 st0 = s->steps; u64 lim = g_maxsteps;
    while (!g_end) {
      step(*s);
      if (((++s->steps) & 0xfff) == 0) {
        if (s->steps > lim) { violation(*s, "steplimit", "path exceeds instruction limit (non-termination or excessive work)"); break; }
        if (shm->stop) break; if (now() > g_deadline) { shm->incomplete = 1; break; }
      }
      if (g_q.size() >= 2 && ((++icount) & 0x3ff) == 0 && shm->active < g_maxproc) {
        // keep the running state out of the split
        bool parent = true; size_t before = g_q.size(); pid_t me = getpid(); maybeSplit(); (void)before;
        if (getpid() != me) parent = false;
        if (!parent) { break; }
      }
    }
    shm->instrs.fetch_add(s->steps - st0, std::memory_order_relaxed);
    u64 ms = shm->maxsteps; while (s->steps > ms && !shm->maxsteps.compare_exchange_weak(ms, s->steps)) {}
    delete s;
    if (exprCount() > 40000000) { /* memory guard */ }
  }
}

// Coverage of the code under test (development aid): lines and branch directions executed.
static std::string g_covfile;
static const DILocation *repoLoc(const Instruction &I) { for (const DILocation *l = I.getDebugLoc(); l; l = l->getInlinedAt()) if (l->getLine() && (l->getFilename().contains("bant/") || l->getFilename().contains("scripts/")) && !l->getFilename().contains("/harness/")) return l; return nullptr; }
static void covInit() { u32 n = 1; for (Function &F : *M) for (BasicBlock &B : F) { g_cov_first[&B] = n; n += B.getTerminator()->getNumSuccessors(); } g_cov = (u8 *)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
static void covWrite() {
  FILE *f = fopen(g_covfile.c_str(), "w"); if (!f) return;
  for (DFunc *d : g_func_by_id) {
    if (d->F->isDeclaration()) continue; const bool called = d->index < sizeof(shm->fused) && shm->fused[d->index];
    for (BasicBlock &B : *d->F) {
      bool hit = called && &B == &d->F->getEntryBlock(); for (BasicBlock *P : predecessors(&B)) { const Instruction *t = P->getTerminator(); for (unsigned k = 0; k < t->getNumSuccessors(); ++k) if (t->getSuccessor(k) == &B && g_cov[g_cov_first[P] + k]) hit = true; }
      for (Instruction &I : B) if (auto *l = repoLoc(I)) fprintf(f, "L %s:%u %d\n", l->getFilename().str().c_str(), l->getLine(), hit);
      const Instruction *t = B.getTerminator(); if (t->getNumSuccessors() < 2) continue; if (auto *l = repoLoc(*t)) for (unsigned k = 0; k < t->getNumSuccessors(); ++k) fprintf(f, "B %s:%u:%u#%u/%u %d\n", l->getFilename().str().c_str(), l->getLine(), l->getColumn(), k, t->getNumSuccessors(), g_cov[g_cov_first[&B] + k]);
    }
  }
  fclose(f);
}

int main(int argc, char **argv) {
  g_t0 = std::chrono::steady_clock::now(); std::string file, entry = "harness_main"; double maxt = 800;
  for (int i = 1; i < argc; ++i) { std::string a = argv[i]; auto v = [&]() { return std::string(argv[++i]); };
    if (a == "--out") g_out = v(); else if (a == "--entry") entry = v(); else if (a == "--time") maxt = atof(v().c_str()); else if (a == "--procs") g_maxproc = atoi(v().c_str());
    else if (a == "--max-steps") g_maxsteps = atoll(v().c_str()); else if (a == "--max-viol") g_maxviol = atoi(v().c_str()); else if (a == "--cov") g_covfile = v(); else if (a == "--tier") g_tier = atoi(v().c_str()); else if (a == "--crosscheck") g_crosscheck = atoll(v().c_str()); else file = a; }
  g_deadline = maxt;
  shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void *)shm, 0, sizeof(Shm));
  ctx = new LLVMContext; SMDiagnostic err; auto mod = parseIRFile(file, err, *ctx); if (!mod) { err.print("symex", errs()); return 2; }
  M = mod.get(); DL = &M->getDataLayout(); z3init();
  for (Function &F : *M) dfuncFor(&F);
  if (!g_covfile.empty()) covInit();
  State *s = new State;
  auto isRuntimeGlobal = [](const GlobalVariable &G) { return G.getName().starts_with("llvm."); };
  for (GlobalVariable &G : M->globals()) { if (isRuntimeGlobal(G)) continue; u64 sz = DL->getTypeAllocSize(G.getValueType()); g_gaddr[&G] = s->mem.alloc(sz, KGlobal, true); }
  std::function<void(u64, const Constant *)> init = [&](u64 addr, const Constant *C) {
    Type *T = C->getType();
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return;
    if (auto *D = dyn_cast<ConstantDataSequential>(C)) { StringRef r = D->getRawDataValues(); for (size_t i = 0; i < r.size(); ++i) storeAt(*s, addr + i, 8, cv((u8)r[i])); return; }
    if (auto *S = dyn_cast<StructType>(T)) { auto *L = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); ++i) init(addr + L->getElementOffset(i), C->getAggregateElement(i)); return; }
    if (auto *A = dyn_cast<ArrayType>(T)) { u64 es = DL->getTypeAllocSize(A->getElementType()); for (unsigned i = 0; i < A->getNumElements(); ++i) init(addr + i * es, C->getAggregateElement(i)); return; }
    std::vector<Operand> o; constVals(C, o); storeAt(*s, addr, leavesOf(T)[0].w, o[0].c);
  };
  for (GlobalVariable &G : M->globals()) if (!isRuntimeGlobal(G) && G.hasInitializer()) { init(g_gaddr[&G], G.getInitializer()); if (G.isConstant()) s->mem.mutObj(g_gaddr[&G])->ro = true; }
  // constructors, then the entry
  std::vector<Function *> ctors;
  if (auto *G = M->getNamedGlobal("llvm.global_ctors")) if (auto *A = dyn_cast<ConstantArray>(G->getInitializer())) {
    std::vector<std::pair<u64, Function *>> v; for (auto &e : A->operands()) { auto *cs = cast<ConstantStruct>(e); if (auto *F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({constInt(cs->getOperand(0)), F}); }
    std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; }); for (auto &p : v) ctors.push_back(p.second); }
  Function *E = M->getFunction(entry); if (!E || E->isDeclaration()) { fprintf(stderr, "ENGINE-ERROR: no entry %s\n", entry.c_str()); return 2; }
  pushFrame(*s, dfuncFor(E), std::vector<Val>(8, cv(0)), 0, 0);
  for (int i = (int)ctors.size() - 1; i >= 0; --i) pushFrame(*s, dfuncFor(ctors[i]), std::vector<Val>(8, cv(0)), 0, 0);
  g_q.push_back(s); shm->active = 1; shm->workers = 1; pid_t root = getpid();
  explore(); flushStats(); shm->active--;
  if (g_solver_broken) shm->incomplete = 1;
  for (pid_t p : g_children) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { if (!shm->failed) fprintf(stderr, "ENGINE-ERROR: worker died status %x\n", st); shm->failed = 1; shm->stop = 1; } }
  if (getpid() != root) { fflush(stderr); _exit(0); }
  if (g_cov) covWrite();
  double t = now(); FILE *f = fopen((g_out + "/result.json").c_str(), "w"); if (!f) return 2;
  auto u = [](std::atomic<u64> &a) { return (unsigned long long)a.load(); };
  fprintf(f, "{\"failed\":%d,\"incomplete\":%d,\"violations\":%d,\"paths\":%llu,\"killed_by_assume\":%llu,\"instructions\":%llu,\"forks\":%llu,\"branches\":%llu,\"assertions\":%llu,\"assertions_simplified\":%llu,\"assertions_table\":%llu,\"assertions_z3\":%llu,\"symbolic_address_checks\":%llu,", (int)shm->failed, (int)shm->incomplete, (int)shm->nviol, u(shm->paths), u(shm->killed), u(shm->instrs), u(shm->forks), u(shm->branches), u(shm->asserts), u(shm->asserts_const), u(shm->asserts_table), u(shm->asserts_z3), u(shm->memchecks_sym));
  fprintf(f, "\"z3_queries\":%llu,\"z3_sat\":%llu,\"z3_unsat\":%llu,\"query_cache_hits\":%llu,\"table_decisions\":%llu,\"crosschecks\":%llu,\"z3_seconds\":%.3f,\"workers\":%llu,\"samples\":%llu,\"max_path_instructions\":%llu,\"wall_s\":%.2f,\n\"cover\":{", u(shm->z3q), u(shm->z3sat), u(shm->z3unsat), u(shm->cache), u(shm->table), u(shm->crosscheck), shm->z3us / 1e6, u(shm->workers), (unsigned long long)std::min<u64>(200, shm->samples), u(shm->maxsteps), t);
  for (int i = 0; i < shm->ncover; ++i) fprintf(f, "%s\"%s\":%llu", i ? "," : "", shm->cover[i], u(shm->covern[i]));
  fprintf(f, "},\n\"functions\":["); bool first = true;
  for (DFunc *d : g_func_by_id) if (d->index < sizeof(shm->fused) && !d->F->isDeclaration() && shm->fused[d->index]) { std::string n = demangle(d->F->getName().str()); if (n.find("bant") == std::string::npos) continue; std::string q; for (char c : n) { if (c == '"' || c == '\\') q += '\\'; if ((u8)c >= 32) q += c; } if (q.size() > 160) q = q.substr(0, 160) ; while (!q.empty() && q.back() == '\\') q.pop_back(); fprintf(f, "%s\"%s\"", first ? "" : ",", q.c_str()); first = false; }
  fprintf(f, "]}\n"); fclose(f);
  if (shm->failed) return 2; if (shm->nviol) return 1; if (shm->incomplete) return 3; return 0;
}
