// call handling, instruction transfer functions, fixpoint driver
static str cstr(Val v) {
  v = resolve(v); if (v.k != Val::PTR) return "?"; const Region &r = regR(v.id); str s;
  if (r.gv && r.gv->hasInitializer()) if (auto *C = dyn_cast<ConstantDataSequential>(r.gv->getInitializer())) { StringRef q = C->getRawDataValues(); q = q.drop_front(std::min<size_t>(v.a, q.size())); return q.take_until([](char c) { return c == 0; }).str(); }
  return s;
}
static bool silentFn(StringRef n) {
  static const char *P[] = {"_ZNSt7__cxx1112basic_string", "_ZNKSt7__cxx1112basic_string", "_ZNSt7__cxx1115basic_", "_ZNSt7__cxx1118basic_", "_ZNSt7__cxx1119basic_", "_ZStplIcSt11char_traits", "_ZNSt13basic_ostream", "_ZNSo", "_ZStls", "_ZNKSt5ctype", "_ZNSt8ios_base", "_ZNSt9basic_ios", "_ZNSt6locale",
    "_ZNK5boost6system12system_error4what", "_ZNK5boost6system10error_code4what", "_ZNK5boost6system10error_code9to_string", "_ZNK5boost6system10error_code7message", "_ZNK5boost15source_location9to_string", "_ZNSt13runtime_error", "_ZNSt11logic_error", "_ZNKSt13runtime_error", "_ZNKSt11logic_error", "_ZNSt12system_errorC", "_ZSt13__adjust_heap_disabled"};
  for (auto p : P) if (n.startswith(p)) return true;
  return false;
}
static bool keepFn(StringRef n) { // exceptions to silentFn: small defined helpers with real effects
  static const char *P[] = {"_ZN5boost6system6detail12generic_error", "_ZN5boost16exception_detail12refcount_ptr", "_ZNK5boost16exception_detail12refcount_ptr", "_ZN5boost16exception_detail15enable_both", "_ZN5boost16exception_detail10clone_base", "_ZN5boost16exception_detail20copy_boost_exception","_ZN5boost16exception_detail17enable_error_info"};
  for (auto p : P) if (n.startswith(p)) return true; return false;
}
static std::set<str> SA = {};
static void coSwitch(int to, const Instruction *I) {
  if (to < 0 || to >= (int)S->st.size() || S->st[to].status == 2) { violation("coroutine misuse"); throw EndPath(); }
  S->st[to].resumer = S->cur; stk().tid = S->tid; 
  bool fresh = S->st[to].status == 3; S->st[to].status = 0; S->cur = to; S->tid = S->st[to].tid;
  if (!fresh) afterCall(mkInt(0, 32), true); // resume after its park call
}
static bool builtin(const Instruction *I, const Function *F, StringRef n, std::vector<Val> &a) {
  auto c64 = [&](unsigned i) -> int64_t { Val v = resolve(a[i]); if (v.k == Val::INT) return v.a; return -1; };
  if (n.startswith("__sa_")) {
    if (n == "__sa_choose") { int64_t k = c64(0); std::vector<std::function<bool()>> al; State *keep = S; (void)keep;
      for (int64_t i = 0; i < k; i++) al.push_back([=]() { traceEv(I, 2, 0, "environment choice " + std::to_string(i)); try { afterCall(mkInt(i, 32), true); } catch (EndPath &) { return false; } return true; }); fork(al); }
    if (n == "__sa_sym32") { afterCall(freshSym(32), true); return true; }
    if (n == "__sa_sym64" || n == "__sa_symptr") { afterCall(freshSym(64), true); return true; }
    if (n == "__sa_range") { Val s = freshSym(64); Sym &q = S->syms[s.id]; q.lo = c64(0); q.hi = c64(1); afterCall(s, true); return true; }
    if (n == "__sa_range32") { Val s = freshSym(32); Sym &q = S->syms[s.id]; q.lo = c64(0); q.hi = c64(1); afterCall(s, true); return true; }
    if (n == "__sa_assert") { str r = cstr(a[1]); R->asserts[r]++; if (!truth(a[0], I)) { violation(r); throw EndPath(); } afterCall(Val(), false); return true; }
    if (n == "__sa_assume") { if (!truth(a[0], I)) throw EndPath(); afterCall(Val(), false); return true; }
    if (n == "__sa_fail") { violation(cstr(a[0])); throw EndPath(); }
    if (n == "__sa_must") { R->mustsReached.insert(cstr(a[0])); afterCall(Val(), false); return true; }
    if (n == "__sa_note") { traceEv(I, 2, 0, cstr(a[0])); afterCall(Val(), false); return true; }
    if (n == "__sa_defer") { for (auto &st : S->st) for (auto &p : st.fr) if (!p->visits.empty()) { if (p.use_count() > 1) p = std::make_shared<Frame>(*p); p->visits.clear(); } afterCall(Val(), false); dedup(2); deferred.push_back(std::make_unique<State>(*S)); R->ends["scheduler states"]++; throw EndPath(); }
    if (n == "__sa_stop") { R->ends["stop"]++; R->paths++; throw EndPath(); }
    if (n == "__sa_getopt") { auto it = S->opts.find(cstr(a[0])); afterCall(mkInt(it == S->opts.end() ? 0 : it->second, 64), true); return true; }
    if (n == "__sa_opt") { S->opts[cstr(a[0])] = c64(1); afterCall(Val(), false); return true; }
    if (n == "__sa_havoc") { Val p = derefable(a[0], I); int64_t sz = c64(1); Region &r = regW(p.id); r.dirty = true; 
      for (auto it = r.cells.lower_bound(p.a); it != r.cells.end() && it->first < p.a + sz; ++it) { unsigned w = std::min(64, it->second.sz * 8); it->second.v = freshSym(w); }
      // integer ranges without a cell
      if (r.def == Region::ZERO || !r.cells.count(p.a)) { int64_t s1 = (sz == 1 || sz == 2 || sz == 4 || sz == 8) ? sz : 0; if (s1 && !r.cells.count(p.a)) r.cells[p.a] = Cell{freshSym(s1 * 8), (int32_t)s1}; }
      afterCall(Val(), false); return true; }
    if (n == "__sa_freed") { Val p = resolve(a[0]); int v = 0; if (p.k == Val::PTR) v = regR(p.id).freed; afterCall(mkInt(v, 32), true); return true; }
    if (n == "__sa_on_heap") { Val p = resolve(a[0]); afterCall(mkInt(p.k == Val::PTR && regR(p.id).kind == Region::HEAP, 32), true); return true; }
    if (n == "__sa_same_object") { Val p = resolve(a[0]), q = resolve(a[1]); afterCall(mkInt(p.k == Val::PTR && q.k == Val::PTR && p.id == q.id, 32), true); return true; }
    if (n == "__sa_is_const") { afterCall(mkInt(resolve(a[0]).k == Val::INT, 32), true); return true; }
    if (n == "__sa_live_heap") { int k = 0; canonHash(0); for (auto &m : S->mem) if (m.second->kind == Region::HEAP && !m.second->freed) k++; afterCall(mkInt(k, 32), true); return true; }
    if (n == "__sa_tid") { afterCall(mkInt(S->tid, 32), true); return true; }
    if (n == "__sa_set_tid") { S->tid = c64(0); afterCall(Val(), false); return true; }
    if (n == "__sa_guard") { Val p = derefable(a[0], I), m = derefable(a[2], I); S->guards.push_back({p.id, p.a, p.a + c64(1), m.id, m.a, (int)S->guards.size()}); afterCall(Val(), false); return true; }
    if (n == "__sa_lockset") { Val p = derefable(a[0], I), q = derefable(a[2], I); str l = cstr(a[4]); int k = 0; while (k < (int)locksetLabels.size() && locksetLabels[k] != l) k++; if (k == (int)locksetLabels.size()) locksetLabels.push_back(l);
      S->guards.push_back({p.id, p.a, p.a + c64(1), q.id, q.a, 1000 + k, c64(3)}); afterCall(Val(), false); return true; }
    if (n == "__sa_mutex_made") { if (locksetUsed) { Val p = derefable(a[0], I); S->locks.erase(std::remove_if(S->locks.begin(), S->locks.end(), [&](auto &m) { return m.first == p.id && m.second == p.a; }), S->locks.end()); if (c64(1)) { if (lockOrder) lockMade(p); else S->locks.push_back({p.id, p.a, -1}); } } afterCall(Val(), false); return true; }
    if (n == "__sa_take") { if (lockOrder) { int k = (int)c64(1); noteTake(k == 2 ? Val() : derefable(a[0], I), k); } afterCall(Val(), false); return true; }
    if (n == "__sa_held_in") { int k = 0; Val p = resolve(a[0]); int64_t z = c64(1); for (auto &m : S->locks) if ((p.k != Val::PTR || (m.first == p.id && m.second >= p.a && m.second < p.a + z)) && heldBySelf(m)) k++; afterCall(mkInt(k, 32), true); return true; }
    if (n == "__sa_unguard") { Val p = derefable(a[0], I); std::vector<State::Guard> g; for (auto &x : S->guards) if (!(x.region == p.id && x.lo <= p.a && p.a < x.hi)) g.push_back(x); S->guards = g; afterCall(Val(), false); return true; }
    if (n == "__sa_unguard_all") { S->guards.clear(); afterCall(Val(), false); return true; }
    if (n == "__sa_co_new") { Val f = resolve(a[0]); if (f.k != Val::FN) incomplete("co_new"); int id = S->st.size(); S->st.emplace_back(); Stack &s = S->st.back(); s.status = 3; s.tid = c64(2);
      const Function *FF = fnTab[f.id]; int cur = S->cur; S->cur = id; auto fr = std::make_shared<Frame>(); fr->F = FF; fr->fi = getFI(FF); fr->bb = &FF->getEntryBlock(); fr->it = fr->bb->begin(); fr->regs.resize(fr->fi->n); if (FF->arg_size()) fr->regs[fr->fi->num[FF->getArg(0)]] = a[1]; stk().fr.push_back(fr); S->cur = cur; afterCall(mkInt(id, 32), true); return true; }
    if (n == "__sa_co_resume") { int id = c64(0); coSwitch(id, I); return true; }
    if (n == "__sa_co_status") { int id = c64(0); afterCall(mkInt(S->st[id].status, 32), true); return true; }
    if (n == "__sa_co_kill") { int id = c64(0); S->st[id].status = 2; S->st[id].fr.clear(); S->st[id].caught.clear(); afterCall(Val(), false); return true; }
    if (n == "__sa_co_self") { afterCall(mkInt(S->cur, 32), true); return true; }
    if (n == "__sa_co_park") { if (S->cur == 0) { R->ends["blocked"]++; R->paths++; if (!userRule("block_ok")) violation("an operation that can proceed does not block: the only thread of control would wait for ever"); throw EndPath(); } int r = stk().resumer; stk().status = 1; stk().tid = S->tid; S->cur = r; S->tid = stk().tid; afterCall(mkInt(1, 32), true); return true; }
    if (n == "__sa_exc_cur") { if (stk().caught.empty()) afterCall(mkNull(), true); else { auto &k = stk().caught.back(); afterCall(mkPtr(k.region, k.off), true); } return true; }
    if (n == "__sa_exc_throw") { Val p = resolve(a[0]); if (p.k != Val::PTR || !regR(p.id).ti) incomplete("exc_throw"); traceEv(I, 2, 0, "rethrows stored exception"); throwExc(p.id, p.a, regR(p.id).ti); return true; }
    if (n == "__sa_exc_clone") { Val p = resolve(a[0]); if (p.k != Val::PTR || !regR(p.id).ti) incomplete("exc_clone"); auto r = std::make_shared<Region>(regR(p.id)); int id = S->nextR++; S->mem[id] = r; afterCall(mkPtr(id, p.a), true); return true; }
    if (n == "__sa_uncaught") { afterCall(mkInt(stk().uncaught, 32), true); return true; }
    if (n == "__sa_print") { errs() << "PRINT " << vstr(resolve(a[0])) << " at " << locOf(I) << "\n"; afterCall(Val(), false); return true; }
    if (n == "__sa_atomic_hook") { Val p = derefable(a[0], I); S->guards.push_back({p.id, p.a, p.a + c64(1), p.id, p.a, -1}); afterCall(Val(), false); return true; }
    errs() << "unknown intrinsic " << n << "\n"; exit(3);
  }
  if (n.startswith("_Zn") && (n.startswith("_Znwm") || n.startswith("_Znam"))) {
    int64_t sz = c64(0); bool nothrow = n.contains("nothrow"); auto mk = [=]() { int id = newRegion(Region::HEAP, Region::UNDEF, sz); regW(id).site = I; try { afterCall(mkPtr(id, 0), true); } catch (EndPath &) { return false; } return true; };
    if (userRule("oom") && oomHere() && !nothrow) {
      int64_t budget = S->opts["oom"]; // number of failing allocations allowed on a path
      std::vector<std::function<bool()>> al; al.push_back(mk);
      al.push_back([=]() { S->opts["oom"] = budget - 1; try { throwStd("_ZTISt9bad_alloc", I); } catch (EndPath &) { return false; } return true; }); fork(al); }
    int id = newRegion(Region::HEAP, Region::UNDEF, sz); regW(id).site = I; afterCall(mkPtr(id, 0), true); return true;
  }
  if (n.startswith("_ZN5boost6detail13spinlock_poolILi2EE11scoped_lock") || n == "_ZN5boost6detail8spinlock4lockEv" || n == "_ZN5boost6detail8spinlock6unlockEv") { afterCall(Val(), false); return true; } // critical sections of boost::atomic_load/store on shared_ptr contain no scheduling point
  if (n == "malloc" || n == "calloc") { int64_t sz = n == "malloc" ? c64(0) : c64(0) * c64(1); int id = newRegion(Region::HEAP, n == "malloc" ? Region::UNDEF : Region::ZERO, sz);
    if (userRule("oom") && oomHere()) { int64_t b = S->opts["oom"]; fork({[=]() { try { afterCall(mkPtr(id, 0), true); } catch (EndPath &) { return false; } return true; }, [=]() { S->opts["oom"] = b - 1; try { afterCall(mkNull(), true); } catch (EndPath &) { return false; } return true; }}); }
    afterCall(mkPtr(id, 0), true); return true; }
  if (n == "free" || n.startswith("_Zdl") || n.startswith("_Zda")) {
    Val p = resolve(a[0]);
    if (p.k == Val::PTR) { Region &r = regW(p.id); if (r.freed) { violation("double free"); throw EndPath(); } if (r.kind == Region::STACK || r.kind == Region::GLOBAL) { violation("free of non-heap object"); throw EndPath(); } r.freed = true; r.cells.clear(); }
    else if (p.k == Val::SYM) { Val q = derefable(p, I); regW(q.id).freed = true; }
    afterCall(Val(), false); return true;
  }
  if (n == "memcpy" || n == "memmove") { Val l = resolve(a[2]); if (l.k == Val::INT) memCopy(a[0], a[1], l.a, I); else impreciseN("symbolic memcpy"); afterCall(a[0], true); return true; }
  if (n == "memset") { Val l = resolve(a[2]); if (l.k == Val::INT) memSet(a[0], a[1], l.a, I); else impreciseN("symbolic memset"); afterCall(a[0], true); return true; }
  if (n == "strlen") { str s = cstr(a[0]); afterCall(mkInt(s.size(), 64), true); return true; }
  if (n == "strcmp") { Val p = resolve(a[0]), q = resolve(a[1]); if (p == q) { afterCall(mkInt(0, 32), true); return true; } afterCall(mkInt(cstr(p).compare(cstr(q)), 32), true); return true; }
  if (n == "abort" || n == "_ZSt9terminatev" || n == "__clang_call_terminate" || n == "__cxa_call_unexpected") { if (!userRule("terminate_ok")) violation("terminate: std::terminate/abort reached"); R->ends["terminate"]++; throw EndPath(); }
  if (n == "exit" || n == "_exit") { R->ends["exit"]++; throw EndPath(); }
  if (n == "__assert_fail" || n.startswith("_ZN5boost16assertion_failed")) { if (!userRule("assert_ok")) violation("library assertion fails: " + (n == "__assert_fail" ? cstr(a[0]) : cstr(a[0]))); R->ends["assert"]++; throw EndPath(); }
  if (n == "__cxa_pure_virtual") { violation("pure virtual call"); throw EndPath(); }
  if (n == "__cxa_allocate_exception") { int id = newRegion(Region::EXC, Region::UNDEF, c64(0)); afterCall(mkPtr(id, 0), true); return true; }
  if (n == "__cxa_free_exception" || n == "__cxa_atexit" || n == "__cxa_thread_atexit") { afterCall(mkInt(0, 32), true); return true; }
  if (n == "__cxa_throw") { Val p = resolve(a[0]), t = resolve(a[1]); const Constant *ti = nullptr; if (t.k == Val::PTR) ti = regR(t.id).gv; Region &r = regW(p.id); r.ti = ti; traceEv(I, 2, 0, "throws " + (ti ? dem(ti->getName().str()) : str("?"))); throwExc(p.id, p.a, ti); return true; }
  if (n == "__cxa_begin_catch") { Val p = resolve(a[0]); Caught k; k.region = p.id; k.off = p.a; k.ti = regR(p.id).ti; k.adj = S->excAdj; k.count = 1; k.rethrown = false; stk().caught.push_back(k); stk().uncaught--; S->unwinding = false; afterCall(mkPtr(p.id, p.a + k.adj), true); return true; }
  if (n == "__cxa_get_exception_ptr") { Val p = resolve(a[0]); afterCall(mkPtr(p.id, p.a + S->excAdj), true); return true; }
  if (n == "__cxa_end_catch") { if (!stk().caught.empty()) stk().caught.pop_back(); afterCall(Val(), false); return true; }
  if (n == "__cxa_rethrow") { if (stk().caught.empty()) { violation("terminate: rethrow without exception"); throw EndPath(); } Caught k = stk().caught.back(); throwExc(k.region, k.off, k.ti); return true; }
  if (n == "_ZSt18uncaught_exceptionv") { afterCall(mkInt(stk().uncaught > 0, 1), true); return true; }
  if (n == "_ZSt19uncaught_exceptionsv") { afterCall(mkInt(stk().uncaught, 32), true); return true; }
  if (n == "__cxa_guard_acquire") { Val g = derefable(a[0], I); Val v = loadScalar(g.id, g.a, 1, Type::getInt8Ty(M->getContext()), nullptr); int t = !truth(v, I); afterCall(mkInt(t, 32), true); return true; }
  if (n == "__cxa_guard_release") { Val g = derefable(a[0], I); storeV(Type::getInt8Ty(M->getContext()), g, mkInt(1, 8), I); afterCall(Val(), false); return true; }
  if (n == "__cxa_guard_abort") { afterCall(Val(), false); return true; }
  if (n == "__dynamic_cast") {
    Val p = derefable(a[0], I); Val dt = resolve(a[2]); Val vt = loadScalar(p.id, p.a, 8, PointerType::getUnqual(M->getContext()), nullptr);
    if (vt.k == Val::PTR && dt.k == Val::PTR) { Val ti = loadScalar(vt.id, vt.a - 8, 8, PointerType::getUnqual(M->getContext()), nullptr), ot = loadScalar(vt.id, vt.a - 16, 8, Type::getInt64Ty(M->getContext()), nullptr);
      if (ti.k == Val::PTR && ot.k == Val::INT && regR(ti.id).gv) { int64_t off; if (tiBase(regR(ti.id).gv, regR(dt.id).gv, 0, off)) { afterCall(mkPtr(p.id, p.a + ot.a + (off == -999999 ? 0 : off)), true); return true; } afterCall(mkNull(), true); return true; } }
    fork({[=]() { try { afterCall(mkNull(), true); } catch (EndPath &) { return false; } return true; }, [=]() { try { afterCall(p, true); } catch (EndPath &) { return false; } return true; }});
  }
  return false;
}
static void opaque(const Instruction *I, const str &n) { R->opaque[n]++; afterCall(freshFor(I->getType()), true); }
static void doCall(const CallBase *C) {
  const Instruction *I = C;
  if (auto *II = dyn_cast<IntrinsicInst>(C)) {
    switch (II->getIntrinsicID()) {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::assume: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::var_annotation: case Intrinsic::prefetch: case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::stackrestore: case Intrinsic::sideeffect: case Intrinsic::donothing:
      ++top().it; return;
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: { Val p = get(II->getArgOperand(1)); if (p.k == Val::PTR && S->mem.count(p.id)) { Region &r = regW(p.id); int64_t sz = cast<ConstantInt>(II->getArgOperand(0))->getSExtValue(); if (sz < 0) sz = 1 << 20; auto a = r.cells.lower_bound(p.a), b = r.cells.lower_bound(p.a + sz); r.cells.erase(a, b); 
        if (II->getIntrinsicID() == Intrinsic::lifetime_end) { std::vector<State::Guard> g; for (auto &x : S->guards) if (x.region != p.id) g.push_back(x); S->guards = g; } } ++top().it; return; }
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { Val l = get(II->getArgOperand(2)); if (l.k == Val::INT) memCopy(get(II->getArgOperand(0)), get(II->getArgOperand(1)), l.a, I); else impreciseN("symbolic memcpy"); ++top().it; return; }
    case Intrinsic::memset: { Val l = get(II->getArgOperand(2)); if (l.k == Val::INT) memSet(get(II->getArgOperand(0)), get(II->getArgOperand(1)), l.a, I); else impreciseN("symbolic memset"); ++top().it; return; }
    case Intrinsic::eh_typeid_for: { auto *T = cast<Constant>(II->getArgOperand(0)->stripPointerCasts()); setReg(I, mkInt(tiId(T), 32)); ++top().it; return; }
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::annotation: setReg(I, get(II->getArgOperand(0))); ++top().it; return;
    case Intrinsic::threadlocal_address: setReg(I, get(II->getArgOperand(0))); ++top().it; return;
    case Intrinsic::is_constant: setReg(I, mkInt(0, 1)); ++top().it; return;
    case Intrinsic::objectsize: setReg(I, mkInt(-1, 64)); ++top().it; return;
    case Intrinsic::trap: case Intrinsic::ubsantrap: violation("trap reached"); throw EndPath();
    case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
      Val x = get(II->getArgOperand(0)), y = get(II->getArgOperand(1)); unsigned w = II->getArgOperand(0)->getType()->getIntegerBitWidth(); unsigned op = cast<WithOverflowInst>(II)->getBinaryOp(); int ov = 0;
      if (x.k == Val::INT && y.k == Val::INT) { APInt A(w, (uint64_t)x.a, true), B(w, (uint64_t)y.a, true); bool o; switch (II->getIntrinsicID()) { case Intrinsic::umul_with_overflow: (void)A.umul_ov(B, o); break; case Intrinsic::uadd_with_overflow: (void)A.uadd_ov(B, o); break; case Intrinsic::usub_with_overflow: (void)A.usub_ov(B, o); break; case Intrinsic::smul_with_overflow: (void)A.smul_ov(B, o); break; case Intrinsic::sadd_with_overflow: (void)A.sadd_ov(B, o); break; default: (void)A.ssub_ov(B, o); } ov = o; }
      setReg(I, mkAgg({binop(op, x, y, w, I), mkInt(ov, 1)})); ++top().it; return; }
    case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: { Val x = get(II->getArgOperand(0)), y = get(II->getArgOperand(1)); auto id = II->getIntrinsicID(); CmpInst::Predicate P = id == Intrinsic::umax ? CmpInst::ICMP_UGT : id == Intrinsic::umin ? CmpInst::ICMP_ULT : id == Intrinsic::smax ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT; setReg(I, cmpVals(P, x, y, x.w, I) ? x : y); ++top().it; return; }
    default: { str n = II->getCalledFunction()->getName().str(); R->opaque[n]++; if (!I->getType()->isVoidTy()) setReg(I, freshFor(I->getType())); ++top().it; return; }
    }
  }
  if (C->isInlineAsm()) { str n = "inline asm"; R->opaque[n]++; afterCall(freshFor(I->getType()), true); return; }
  std::vector<Val> args; for (auto &A : C->args()) args.push_back(get(A.get()));
  const Function *F = C->getCalledFunction();
  if (!F) { Val cv = get(C->getCalledOperand()); 
    if (cv.k == Val::FN) F = fnTab[cv.id];
    else if (cv.k == Val::INT && cv.a == 0) { violation("call through null function pointer"); throw EndPath(); }
    else { opaque(I, "unknown function pointer at " + locOf(I)); return; } }
  StringRef n = F->getName();
  if (F->isDeclaration() || n.startswith("__clang_call_terminate") || n.startswith("_ZSt9terminatev") || n.startswith("_ZN5boost6detail13spinlock_poolILi2EE11scoped_lock") || n == "_ZN5boost6detail8spinlock4lockEv" || n == "_ZN5boost6detail8spinlock6unlockEv") { if (builtin(I, F, n, args)) return; }
  if (!F->isDeclaration() && (!silentFn(n) || keepFn(n))) { pushCall(F, args, I); return; }
  // silent or unknown external
  { auto *RT = I->getType(); (void)RT; }
  if (silentFn(n)) { afterCall(freshFor(I->getType()), true); return; }
  opaque(I, n.str());
}
// ------------------------------------------------------------------ instruction transfer
static int accessKind(const Instruction *I) { // 1 load, 2 store, 4 acquire, 8 release, 16 not atomic
  auto ord = [](AtomicOrdering o) { return (isAcquireOrStronger(o) ? 4 : 0) | (isReleaseOrStronger(o) ? 8 : 0); };
  if (auto *L = dyn_cast<LoadInst>(I)) return 1 | (L->isAtomic() ? ord(L->getOrdering()) : 16);
  if (auto *L = dyn_cast<StoreInst>(I)) return 2 | (L->isAtomic() ? ord(L->getOrdering()) : 16);
  if (auto *L = dyn_cast<AtomicRMWInst>(I)) return 3 | ord(L->getOrdering());
  if (auto *L = dyn_cast<AtomicCmpXchgInst>(I)) return 3 | (ord(L->getSuccessOrdering()) & (4 | 8)) | (isAcquireOrStronger(L->getFailureOrdering()) ? 0 : 32);
  return 0;
}
static bool atomicHook(const Instruction *I, Val p) {
  if (S->guards.empty()) return false;
  static Function *H = M->getFunction("__sa_on_atomic");
  if (!H || H->isDeclaration()) return false;
  p = resolve(p); if (p.k != Val::PTR) return false;
  bool m = false; for (auto &g : S->guards) if (g.tag == -1 && g.region == p.id && p.a >= g.lo && p.a < g.hi) m = true;
  if (!m) return false;
  Frame &f = top(); if (f.hasHookRet) { f.hasHookRet = false; return false; }
  f.hasHookRet = true; f.hookRet = mkInt(1, 32);
  pushCall(H, {p, mkInt(accessKind(I), 32)}, I); top().hookFrame = true; return true;
}
static void step() {
  const Instruction *I = &*stk().fr.back()->it;
  if (PROF) prof[top().F]++;
  if (++R->steps > MAXSTEPS) { R->incomplete.insert("step budget exhausted"); throw EndPath(); }
  switch (I->getOpcode()) {
  case Instruction::Alloca: { auto *A = cast<AllocaInst>(I); int64_t sz = DL->getTypeAllocSize(A->getAllocatedType()); Val c = get(A->getArraySize()); if (c.k == Val::INT) sz *= c.a; else sz = -1; int id = newRegion(Region::STACK, Region::UNDEF, sz); regW(id).site = I; top().allocas.push_back(id); setReg(I, mkPtr(id, 0)); ++top().it; return; }
  case Instruction::Load: { auto *L = cast<LoadInst>(I); Val p = get(L->getPointerOperand()); if (atomicHook(I, p)) return; Val v = loadV(L->getType(), p, I, L->isAtomic()); setReg(I, v); ++top().it; return; }
  case Instruction::Store: { auto *L = cast<StoreInst>(I); Val p = get(L->getPointerOperand()); if (atomicHook(I, p)) return; storeV(L->getValueOperand()->getType(), p, get(L->getValueOperand()), I, L->isAtomic()); ++top().it; return; }
  case Instruction::GetElementPtr: {
    auto *G = cast<GEPOperator>(I); Val b = get(G->getPointerOperand()); int64_t off = 0; bool ok = true; 
    for (auto gi = gep_type_begin(G), e = gep_type_end(G); gi != e; ++gi) {
      if (StructType *ST = gi.getStructTypeOrNull()) { off += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue()); continue; }
      int64_t es = DL->getTypeAllocSize(gi.getIndexedType()); Val iv = get(gi.getOperand()); if (iv.k == Val::INT) off += iv.a * es; else ok = false; }
    if (!ok) { impreciseN("symbolic index"); setReg(I, freshSym(64)); ++top().it; return; }
    if (b.k == Val::PTR || b.k == Val::SYM || b.k == Val::INT) { b.a += off; if (b.k == Val::INT) b = mkInt(b.a, 64); setReg(I, b); } else setReg(I, freshSym(64));
    ++top().it; return; }
  case Instruction::ICmp: { auto *Cm = cast<ICmpInst>(I); Type *T = Cm->getOperand(0)->getType(); if (T->isVectorTy()) { setReg(I, freshSym(1)); ++top().it; return; } unsigned w = T->isPointerTy() ? 64 : std::min(64u, T->getIntegerBitWidth()); Val x = get(Cm->getOperand(0)), y = get(Cm->getOperand(1));
    if (x.k == Val::UND || y.k == Val::UND) { setReg(I, freshSym(1)); ++top().it; return; }
    int r = cmpVals(Cm->getPredicate(), x, y, w, I); setReg(I, mkInt(r, 1)); ++top().it; return; }
  case Instruction::FCmp: { Val x = get(I->getOperand(0)), y = get(I->getOperand(1)); if (x.k == Val::FP && y.k == Val::FP) { double a, b; memcpy(&a, &x.a, 8); memcpy(&b, &y.a, 8); bool r = false; switch (cast<FCmpInst>(I)->getPredicate()) { case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = a == b; break; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = a != b; break; case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = a < b; break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = a <= b; break; case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = a > b; break; default: r = a >= b; } setReg(I, mkInt(r, 1)); ++top().it; return; } setReg(I, freshSym(1)); ++top().it; return; }
  case Instruction::Br: { auto *B = cast<BranchInst>(I); if (B->isUnconditional()) { enterBlock(B->getSuccessor(0)); return; } int t = truth(get(B->getCondition()), I); enterBlock(B->getSuccessor(t ? 0 : 1)); return; }
  case Instruction::Switch: { auto *W = cast<SwitchInst>(I); Val v = get(W->getCondition());
    if (v.k == Val::INT) { for (auto &c : W->cases()) if (c.getCaseValue()->getSExtValue() == v.a) { enterBlock(c.getCaseSuccessor()); return; } enterBlock(W->getDefaultDest()); return; }
    if (v.k == Val::SYM) { std::vector<std::function<bool()>> al; int id = v.id; int64_t ad = v.a; std::vector<int64_t> cs; for (auto &c : W->cases()) cs.push_back(c.getCaseValue()->getSExtValue() - ad);
      for (auto c : cs) al.push_back([=]() { Sym &q = S->syms[id]; if (c < q.lo || c > q.hi) return false; for (auto n : q.neq) if (n == c) return false; q.lo = q.hi = c; traceEv(I, 2, 0, "switch case " + std::to_string(c + ad)); return true; });
      bool all = true; Sym &q0 = S->syms[id]; for (auto c : cs) { bool f = false; if (c < q0.lo || c > q0.hi) f = true; for (auto n : q0.neq) if (n == c) f = true; if (!f) all = false; }
      if (all) { enterBlock(W->getDefaultDest()); return; }
      al.push_back([=]() { Sym &q = S->syms[id]; for (auto c : cs) q.neq.push_back(c); return tightenEnds(q); }); fork(al); }
    incomplete("switch on unknown"); return; }
  case Instruction::Select: { if (I->getType()->isVectorTy()) { setReg(I, freshFor(I->getType())); ++top().it; return; } int t = truth(get(I->getOperand(0)), I); setReg(I, get(I->getOperand(t ? 1 : 2))); ++top().it; return; }
  case Instruction::Call: doCall(cast<CallBase>(I)); return;
  case Instruction::Invoke: doCall(cast<CallBase>(I)); return;
  case Instruction::Ret: { auto *Rt = cast<ReturnInst>(I); if (Rt->getReturnValue()) { Val v = get(Rt->getReturnValue()); doReturn(v, true); } else doReturn(Val(), false); return; }
  case Instruction::Unreachable: R->ends["unreachable"]++; throw EndPath();
  case Instruction::LandingPad: { Val e = mkPtr(S->excR, S->excOff); setReg(I, mkAgg({e, mkInt(S->opts["__sel"], 32)})); S->opts.erase("__sel"); ++top().it; return; }
  case Instruction::Resume: { Val v = get(I->getOperand(0)); Val p = v.k == Val::AGG ? resolve((*v.agg)[0]) : Val(); if (p.k != Val::PTR) incomplete("resume of unknown exception"); S->unwinding = true; S->excR = p.id; S->excOff = p.a; S->excTI = regR(p.id).ti; 
    popFrame(); unwind(); return; }
  case Instruction::ExtractValue: { Val v = get(I->getOperand(0)); auto *E = cast<ExtractValueInst>(I); for (unsigned ix : E->indices()) { if (v.k != Val::AGG) { v = freshFor(I->getType()); break; } v = resolve((*v.agg)[ix]); } setReg(I, v); ++top().it; return; }
  case Instruction::InsertValue: { Val v = get(I->getOperand(0)); auto *E = cast<InsertValueInst>(I); Val x = get(I->getOperand(1)); if (v.k != Val::AGG) v = freshFor(I->getType());
    std::function<Val(Val, ArrayRef<unsigned>)> ins = [&](Val b, ArrayRef<unsigned> ix) -> Val { if (ix.empty()) return x; std::vector<Val> c = *b.agg; c[ix[0]] = ins(c[ix[0]], ix.drop_front()); return mkAgg(c); }; setReg(I, ins(v, E->getIndices())); ++top().it; return; }
  case Instruction::Trunc: { Val v = get(I->getOperand(0)); if (!I->getType()->isIntegerTy()) { setReg(I, freshFor(I->getType())); ++top().it; return; } unsigned w = std::min(64u, I->getType()->getIntegerBitWidth()); Val r;
    if (v.k == Val::INT) r = mkInt(v.a, w); else if (v.k == Val::SYM) { int64_t l, h; if (v.w <= w) r = v; else if (symRange(v, l, h) && ((w == 1 && l >= 0 && h <= 1))) { r = mkInt(truth(v, I), 1); } else if (symRange(v, l, h) && w > 1 && l >= smin(w) && h <= smax(w)) { r = v; r.w = w; } else r = exprSym(Instruction::Trunc, v, mkInt(w, 8), w); }
    else if (v.k == Val::PTR) r = exprSym(Instruction::Trunc, v, mkInt(w, 8), w); else r = freshSym(w);
    setReg(I, r); ++top().it; return; }
  case Instruction::ZExt: case Instruction::SExt: { Val v = get(I->getOperand(0)); if (!I->getType()->isIntegerTy()) { setReg(I, freshFor(I->getType())); ++top().it; return; } unsigned w = std::min(64u, I->getType()->getIntegerBitWidth()); unsigned sw = I->getOperand(0)->getType()->getIntegerBitWidth(); bool z = I->getOpcode() == Instruction::ZExt; Val r;
    if (sw == 1) { r = mkInt(truth(v, I) ? (z ? 1 : -1) : 0, w); }
    else if (v.k == Val::INT) r = mkInt(z ? (int64_t)zx(v.a, std::min(64u, sw)) : v.a, w);
    else if (v.k == Val::SYM) { int64_t l, h; if (sw >= 64) r = v; else if (symRange(v, l, h) && (!z || l >= 0)) { r = v; r.w = w; } else { r = exprSym(z ? Instruction::ZExt : Instruction::SExt, v, mkInt(w, 8), w); if (z && r.k == Val::SYM) { Sym &q = S->syms[r.id]; q.lo = std::max<int64_t>(q.lo, 0); q.hi = std::min<int64_t>(q.hi, (1ll << sw) - 1); } } }
    else r = v.k == Val::PTR ? v : freshSym(w);
    setReg(I, r); ++top().it; return; }
  case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Freeze: { Val v = get(I->getOperand(0)); if (I->getOpcode() == Instruction::BitCast && (I->getType()->isFloatingPointTy() || I->getOperand(0)->getType()->isFloatingPointTy() || I->getType()->isVectorTy())) v = freshFor(I->getType()); setReg(I, v); ++top().it; return; }
  case Instruction::FPToSI: case Instruction::FPToUI: { Val v = get(I->getOperand(0)); if (v.k == Val::FP) { double d; memcpy(&d, &v.a, 8); setReg(I, mkInt((int64_t)d, std::min(64u, I->getType()->getIntegerBitWidth()))); } else setReg(I, freshFor(I->getType())); ++top().it; return; }
  case Instruction::SIToFP: case Instruction::UIToFP: { Val v = get(I->getOperand(0)); Val r; if (v.k == Val::INT) { double d = I->getOpcode() == Instruction::SIToFP ? (double)v.a : (double)zx(v.a, v.w); r.k = Val::FP; memcpy(&r.a, &d, 8); } setReg(I, r); ++top().it; return; }
  case Instruction::FPExt: case Instruction::FPTrunc: { Val v = get(I->getOperand(0)); setReg(I, v); ++top().it; return; }
  case Instruction::FNeg: { setReg(I, Val()); ++top().it; return; }
  case Instruction::Fence: ++top().it; return;
  case Instruction::AtomicRMW: { auto *A = cast<AtomicRMWInst>(I); Val p = get(A->getPointerOperand()); if (atomicHook(I, p)) return; Type *T = A->getValOperand()->getType(); Val o = loadV(T, p, I, true), v = get(A->getValOperand()), nv; unsigned w = T->isIntegerTy() ? T->getIntegerBitWidth() : 64;
    switch (A->getOperation()) { case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = binop(Instruction::Add, o, v, w, I); break; case AtomicRMWInst::Sub: nv = binop(Instruction::Sub, o, v, w, I); break; case AtomicRMWInst::And: nv = binop(Instruction::And, o, v, w, I); break; case AtomicRMWInst::Or: nv = binop(Instruction::Or, o, v, w, I); break; case AtomicRMWInst::Xor: nv = binop(Instruction::Xor, o, v, w, I); break; default: nv = freshFor(T); }
    storeV(T, p, nv, I, true); setReg(I, o); ++top().it; return; }
  case Instruction::AtomicCmpXchg: { auto *A = cast<AtomicCmpXchgInst>(I); Val p = get(A->getPointerOperand()); if (atomicHook(I, p)) return; Type *T = A->getCompareOperand()->getType(); Val o = loadV(T, p, I, true), c = get(A->getCompareOperand()); unsigned w = T->isIntegerTy() ? T->getIntegerBitWidth() : 64; int e = cmpVals(CmpInst::ICMP_EQ, o, c, w, I); if (e) storeV(T, p, get(A->getNewValOperand()), I, true); setReg(I, mkAgg({o, mkInt(e, 1)})); ++top().it; return; }
  default:
    if (I->isBinaryOp()) { Type *T = I->getType(); if (T->isFloatingPointTy()) { setReg(I, Val()); ++top().it; return; } if (!T->isIntegerTy()) { setReg(I, freshFor(T)); ++top().it; return; }
      Val v = binop(I->getOpcode(), get(I->getOperand(0)), get(I->getOperand(1)), T->getIntegerBitWidth(), I); setReg(I, v); ++top().it; return; }
    R->imprecise[str("instruction ") + I->getOpcodeName()]++; if (!I->getType()->isVoidTy()) setReg(I, freshFor(I->getType())); ++top().it; return;
  }
}
static void scanMusts(const Function *F, std::set<const Function *> &vis) {
  if (!vis.insert(F).second) return;
  for (auto &B : *F) for (auto &I : B) {
    for (auto &Op : I.operands()) if (auto *G = dyn_cast<Function>(Op->stripPointerCasts())) { if (!G->isDeclaration() && getFI(G)->inTU) scanMusts(G, vis); }
    if (auto *C = dyn_cast<CallBase>(&I)) if (auto *G = C->getCalledFunction()) if (G->getName() == "__sa_must") { if (auto *GV = dyn_cast<GlobalVariable>(C->getArgOperand(0)->stripPointerCasts())) if (auto *D = dyn_cast<ConstantDataSequential>(GV->getInitializer())) R->musts.insert(D->getAsCString().str()); }
  }
}
static void dumpProf() { std::vector<std::pair<int64_t, str>> v; for (auto &x : prof) v.push_back({x.second, shortDem(x.first)}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 40; i++) errs() << v[i].first << " " << v[i].second << "\n"; }
static void analyse(Function *E) {
  R = new Result; T0 = std::chrono::steady_clock::now();
  std::set<const Function *> vis; getFI(E); scanMusts(E, vis);
  auto s0 = std::make_unique<State>(); S = s0.get(); S->st.emplace_back(); 
  auto f = std::make_shared<Frame>(); f->F = E; f->fi = getFI(E); f->bb = &E->getEntryBlock(); f->it = f->bb->begin(); f->regs.resize(f->fi->n); stk().fr.push_back(f);
  for (auto &A : E->args()) setReg(&A, freshFor(A.getType()));
  work.push_back(std::move(s0)); int tick = 0;
  while (!work.empty() || !deferred.empty()) {
    if (work.empty()) { work.push_back(std::move(deferred.front())); deferred.pop_front(); }
    if (R->incomplete.count("state budget exhausted") || R->incomplete.count("step budget exhausted")) break;
    auto st = std::move(work.back()); work.pop_back(); S = st.get();
    try { for (;;) { if ((++tick & 1023) == 0) { double t = std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); if (t > TLIM) { R->incomplete.insert("time budget exhausted"); work.clear(); deferred.clear(); throw EndPath(); } }
        if (VERB) { auto &ff = *stk().fr.back(); errs() << "  [" << stk().fr.size() << "] " << locOf(&*ff.it) << " "; ff.it->print(errs()); errs() << "\n"; }
        step(); } }
    catch (EndPath &) {} catch (Forked &) {}
  }
  if (PROF) dumpProf();
  if (lockOrder) orderReport(); else locksetReport();
}
static json::Value toJson(const str &entry) {
  json::Object o; o["entry"] = entry; json::Array vs;
  for (auto &m : R->musts) if (!R->mustsReached.count(m) && R->incomplete.empty()) { Violation v; v.rule = "must-reach: " + m; v.loc = entry;
    bool inn = false; for (int i = (int)R->lastMerge.size() - 1; i >= 0; i--) { auto &f = *R->lastMerge[i]; v.stack.push_back(shortDem(f.F) + " " + locOf(&*f.it)); if (!inn && f.fi->inSrc) { inn = true; v.loc = locOf(&*f.it); v.func = shortDem(f.F); } }
    R->viol[v.rule] = v; }
  for (auto &v : R->viol) { json::Object q; q["rule"] = v.second.rule; q["loc"] = v.second.loc; q["func"] = v.second.func; json::Array s, t; for (auto &x : v.second.stack) s.push_back(x); for (auto &x : v.second.trace) t.push_back(x); q["stack"] = std::move(s); q["trace"] = std::move(t); vs.push_back(std::move(q)); }
  o["violations"] = std::move(vs);
  json::Array inc; for (auto &x : R->incomplete) inc.push_back(x); o["incomplete"] = std::move(inc);
  auto mp = [](const std::map<str, int64_t> &m) { json::Object r; for (auto &x : m) r[x.first] = x.second; return r; };
  o["opaque"] = mp(R->opaque); o["imprecise"] = mp(R->imprecise); o["asserts"] = mp(R->asserts); o["ends"] = mp(R->ends);
  json::Array sf; for (auto &x : R->srcFuncs) sf.push_back(x); o["src_functions"] = std::move(sf);
  json::Array mu; for (auto &x : R->mustsReached) mu.push_back(x); o["musts_reached"] = std::move(mu); o["musts"] = (int64_t)R->musts.size();
  o["states"] = R->states; o["steps"] = R->steps; o["forks"] = R->forks; o["merged"] = R->merged; o["paths"] = R->paths;
  o["wall"] = std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count();
  return json::Value(std::move(o));
}
static json::Object fixUtf(json::Object o) { return o; }
// BTA_COV=dir: the source lines of the library that were reached (+) and those compiled but not reached (-); development only
static void covDump(const str &e) {
  const char *d = getenv("BTA_COV"); if (!d) return;
  std::map<str, int> L; for (auto &F : *M) { if (F.isDeclaration()) continue; bool seenF = FI.count(&F);
    for (auto &B : F) { bool v = seenF && (&B == &F.getEntryBlock() || covB.count(&B)); for (auto &I : B) { if (isa<LandingPadInst>(I) || !I.getDebugLoc()) continue; str l = locOf(&I); if (l.find(SRC) == str::npos) continue; int &x = L[l]; if (v) x = 1; } } }
  std::error_code ec; raw_fd_ostream os(str(d) + "/" + e + "." + std::to_string(getpid()), ec); for (auto &l : L) os << (l.second ? "+" : "-") << l.first << "\n";
}
int main(int argc, char **argv) {
  str in, outdir; std::vector<str> entries; int J = 8; str pat;
  for (int i = 1; i < argc; i++) { str a = argv[i]; auto nx = [&]() { return str(argv[++i]); };
    if (a == "--out") outdir = nx(); else if (a == "-j") J = atoi(nx().c_str()); else if (a == "--entry") entries.push_back(nx()); else if (a == "--src") SRC = nx(); else if (a == "--tu") TUDIR = nx(); else if (a == "-v") VERB = true; else if (a == "--prof") PROF = true; else if (a == "--maxsteps") MAXSTEPS = atoll(nx().c_str()); else if (a == "--maxstates") MAXSTATES = atoll(nx().c_str()); else if (a == "--tlim") TLIM = atof(nx().c_str()); else if (a == "--list") pat = "list"; else in = a; }
  LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(in, err, ctx); if (!mod) { err.print("bta", errs()); return 2; }
  M = mod.get(); DL = &M->getDataLayout(); hooksUsed = M->getFunction("__sa_atomic_hook") != nullptr; locksetUsed = M->getFunction("__sa_lockset") || M->getFunction("__sa_held_in"); lockOrder = M->getNamedGlobal("sa_lock_order_mode") != nullptr;
  { PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    FunctionPassManager FPM; FPM.addPass(SROAPass(SROAOptions::PreserveCFG)); for (auto &F : *M) if (!F.isDeclaration()) FPM.run(F, FAM); }
  if (entries.empty()) for (auto &F : *M) if (!F.isDeclaration() && F.getName().startswith("E_")) entries.push_back(F.getName().str());
  if (pat == "list") { for (auto &e : entries) outs() << e << "\n"; return 0; }
  if (entries.empty()) { errs() << "no entries\n"; return 2; }
  std::map<pid_t, str> run; size_t k = 0; int bad = 0;
  while (k < entries.size() || !run.empty()) {
    while ((int)run.size() < J && k < entries.size()) {
      str e = entries[k++]; Function *F = M->getFunction(e); if (!F) { errs() << "no entry " << e << "\n"; bad = 2; continue; }
      if (J == 1 && entries.size() == 1) { analyse(F); covDump(e); auto j = toJson(e); if (outdir.empty()) outs() << formatv("{0:2}", j) << "\n"; else { std::error_code ec; raw_fd_ostream os(outdir + "/" + e + ".json", ec); os << formatv("{0:2}", j); } return 0; }
      outs().flush(); errs().flush(); pid_t p = ::fork();
      if (p == 0) { struct rlimit rl = {6ull << 30, 6ull << 30}; setrlimit(RLIMIT_AS, &rl); analyse(F); covDump(e); auto j = toJson(e); std::error_code ec; raw_fd_ostream os(outdir + "/" + e + ".json", ec); os << formatv("{0:2}", j); os.close(); _exit(0); }
      run[p] = e;
    }
    int stt; pid_t p = wait(&stt); if (p > 0) { if (!WIFEXITED(stt) || WEXITSTATUS(stt)) { errs() << "entry " << run[p] << " crashed (" << stt << ")\n"; bad = 2; } run.erase(p); }
  }
  return bad;
}
