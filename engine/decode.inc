// ------------------------------------------------------------------ decoding of LLVM IR into the executor's form
static std::unordered_map<std::string, int> BUILTIN_ID; struct BI { std::string name; SVal (*fn)(XI &); }; static std::vector<BI> BUILTINS;
static int builtinId(const std::string &n);
static bool isSkipIntrinsic(StringRef n) {
  return n.starts_with("llvm.dbg.") || n.starts_with("llvm.lifetime.") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.assume") || n.starts_with("llvm.invariant.") || n.starts_with("llvm.donothing") || n.starts_with("llvm.prefetch") || n.starts_with("llvm.var.annotation");
}
static FnInfo *fnInfo(Function *F) { auto it = FI.find(F); if (it != FI.end()) return it->second; auto *f = new FnInfo; f->F = F; f->name = F->getName().str(); FI[F] = f; return f; }
static unsigned bw(Type *t) { if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return 64; if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; return 0; }
static void decode(FnInfo *f) {
  f->decoded = true; Function *F = f->F; std::unordered_map<const Value *, int> slot; int n = 0;
  for (auto &a : F->args()) { slot[&a] = n; f->argSlots.push_back(n++); }
  std::unordered_map<const BasicBlock *, int> bbi; int bn = 0;
  for (auto &b : *F) { bbi[&b] = bn++; for (auto &i : b) if (!i.getType()->isVoidTy()) slot[&i] = n++; }
  f->nregs = n; f->bbs.resize(bn);
  auto mk = [&](const Value *v) { Op o; if (auto *c = dyn_cast<Constant>(v)) o.c = constVal(c); else { auto it = slot.find(v); if (it == slot.end()) { o.slot = -1; } else o.slot = it->second; } return o; };
  for (auto &b : *F) {
    BB &B = f->bbs[bbi[&b]];
    for (auto &pn : b.phis()) { for (unsigned q = 0; q < pn.getNumIncomingValues(); ++q) { auto &vec = B.phiFrom[bbi[pn.getIncomingBlock(q)]]; if ((int)vec.size() == B.nphi) vec.push_back(mk(pn.getIncomingValue(q))); } ++B.nphi; }
    for (auto &I : b) {
      XI x; x.I = &I; x.k = X_OTHER; x.ty = I.getType(); if (!I.getType()->isVoidTy()) x.dst = slot[&I];
      if (auto *bo = dyn_cast<BinaryOperator>(&I)) {
        Type *t = bo->getType(); x.sub = bo->getOpcode(); x.ops = {mk(bo->getOperand(0)), mk(bo->getOperand(1))};
        Type *s = t->getScalarType(); x.w = bw(s); x.ft = ftOf(s); x.k = x.ft ? X_FBIN : X_BIN;
      } else if (auto *ic = dyn_cast<ICmpInst>(&I)) { x.k = X_ICMP; x.sub = ic->getPredicate(); x.w = bw(ic->getOperand(0)->getType()->getScalarType()); x.ops = {mk(ic->getOperand(0)), mk(ic->getOperand(1))}; }
      else if (auto *fc = dyn_cast<FCmpInst>(&I)) { x.k = X_FCMP; x.sub = fc->getPredicate(); x.ft = ftOf(fc->getOperand(0)->getType()->getScalarType()); x.ops = {mk(fc->getOperand(0)), mk(fc->getOperand(1))}; }
      else if (auto *l = dyn_cast<LoadInst>(&I)) { x.k = X_LOAD; x.size = storeSz(l->getType()); x.ops = {mk(l->getPointerOperand())}; }
      else if (auto *s = dyn_cast<StoreInst>(&I)) { x.k = X_STORE; x.ty = s->getValueOperand()->getType(); x.size = storeSz(x.ty); x.ops = {mk(s->getValueOperand()), mk(s->getPointerOperand())}; }
      else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
        if (g->getType()->isVectorTy()) { x.k = X_OTHER; } else {
          x.k = X_GEP; x.ops = {mk(g->getPointerOperand())};
          for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
            const Value *v = it.getOperand();
            if (auto *st = it.getStructTypeOrNull()) { x.goff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(v)->getZExtValue()); continue; }
            i64 m = allocSz(it.getIndexedType());
            if (auto *ci = dyn_cast<ConstantInt>(v)) { x.goff += ci->getSExtValue() * m; continue; }
            x.gi.push_back({(int)x.ops.size(), m, v->getType()->getIntegerBitWidth()}); x.ops.push_back(mk(v));
          }
        }
      } else if (auto *br = dyn_cast<BranchInst>(&I)) { if (br->isConditional()) { x.k = X_CBR; x.ops = {mk(br->getCondition())}; x.b1 = bbi[br->getSuccessor(0)]; x.b2 = bbi[br->getSuccessor(1)]; } else { x.k = X_BR; x.b1 = bbi[br->getSuccessor(0)]; } }
      else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
        x.k = X_SWITCH; x.w = bw(sw->getCondition()->getType()); x.ops = {mk(sw->getCondition())}; x.b1 = bbi[sw->getDefaultDest()];
        for (auto &c : sw->cases()) { x.gi.push_back({bbi[c.getCaseSuccessor()], (i64)(c.getCaseValue()->getZExtValue()), 0}); }
      } else if (auto *r = dyn_cast<ReturnInst>(&I)) { x.k = X_RET; if (r->getReturnValue()) x.ops = {mk(r->getReturnValue())}; }
      else if (auto *cb = dyn_cast<CallBase>(&I)) {
        x.k = X_CALL; for (auto &a : cb->args()) x.ops.push_back(isa<MetadataAsValue>(a) ? Op() : mk(a));
        if (auto *iv = dyn_cast<InvokeInst>(cb)) { x.b1 = bbi[iv->getNormalDest()]; x.b2 = bbi[iv->getUnwindDest()]; }
        Value *cv = cb->getCalledOperand()->stripPointerCasts(); if (auto *al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliasee()->stripPointerCasts();
        if (auto *cf = dyn_cast<Function>(cv)) {
          x.callee = cf; StringRef nm = cf->getName();
          if (isSkipIntrinsic(nm)) x.k = X_NOP; 
          else { x.builtin = builtinId(nm.str()); if (x.builtin < 0 && !cf->isDeclaration()) x.fi = fnInfo(cf); }
        } else if (isa<InlineAsm>(cb->getCalledOperand())) x.k = X_NOP;
        else x.ops.push_back(mk(cb->getCalledOperand()));
      } else if (isa<PHINode>(&I)) { x.k = X_PHI; }
      else if (auto *se = dyn_cast<SelectInst>(&I)) { x.k = X_SELECT; x.ops = {mk(se->getCondition()), mk(se->getTrueValue()), mk(se->getFalseValue())}; x.w = bw(se->getType()); x.ft = ftOf(se->getType()); }
      else if (auto *ci = dyn_cast<CastInst>(&I)) { x.k = X_CAST; x.sub = ci->getOpcode(); x.ops = {mk(ci->getOperand(0))}; x.w = bw(ci->getSrcTy()->getScalarType()); x.w2 = bw(ci->getDestTy()->getScalarType()); x.ft = ftOf(ci->getSrcTy()->getScalarType()); x.ty = ci->getDestTy(); }
      else if (auto *al = dyn_cast<AllocaInst>(&I)) { x.k = X_ALLOCA; x.size = allocSz(al->getAllocatedType()); x.ops = {mk(al->getArraySize())}; }
      else if (isa<UnaryOperator>(&I)) { x.k = X_FNEG; x.ft = ftOf(I.getType()->getScalarType()); x.ops = {mk(I.getOperand(0))}; }
      else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) { x.k = X_EXTV; x.ops = {mk(ev->getAggregateOperand())}; }
      else if (auto *iv = dyn_cast<InsertValueInst>(&I)) { x.k = X_INSV; x.ops = {mk(iv->getAggregateOperand()), mk(iv->getInsertedValueOperand())}; }
      else if (isa<ExtractElementInst>(&I)) { x.k = X_EXTE; x.ops = {mk(I.getOperand(0)), mk(I.getOperand(1))}; }
      else if (isa<InsertElementInst>(&I)) { x.k = X_INSE; x.ops = {mk(I.getOperand(0)), mk(I.getOperand(1)), mk(I.getOperand(2))}; }
      else if (isa<ShuffleVectorInst>(&I)) { x.k = X_SHUF; x.ops = {mk(I.getOperand(0)), mk(I.getOperand(1))}; }
      else if (isa<UnreachableInst>(&I)) x.k = X_UNREACH;
      else if (isa<LandingPadInst>(&I)) x.k = X_LPAD;
      else if (isa<ResumeInst>(&I)) { x.k = X_RESUME; x.ops = {mk(I.getOperand(0))}; }
      else if (isa<FreezeInst>(&I)) { x.k = X_FREEZE; x.ops = {mk(I.getOperand(0))}; }
      else if (auto *rm = dyn_cast<AtomicRMWInst>(&I)) { x.k = X_ATOMRMW; x.sub = rm->getOperation(); x.ops = {mk(rm->getPointerOperand()), mk(rm->getValOperand())}; x.w = bw(rm->getType()); }
      else if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&I)) { x.k = X_CMPXCHG; x.ops = {mk(cx->getPointerOperand()), mk(cx->getCompareOperand()), mk(cx->getNewValOperand())}; x.ty = cx->getNewValOperand()->getType(); x.w = bw(x.ty); }
      else if (isa<FenceInst>(&I)) x.k = X_NOP;
      B.ins.push_back(std::move(x));
    }
  }
}
static std::string dlStr(const DILocation *d) {
  std::string fn = d->getScope()->getSubprogram() ? d->getScope()->getSubprogram()->getName().str() : "?"; std::string file = d->getFilename().str(); size_t p = file.rfind('/'); if (p != std::string::npos) file = file.substr(p + 1);
  return fn + " " + file + ":" + std::to_string(d->getLine());
}
static std::string whereChain(int maxn) {
  std::string s; int n = 0;
  for (int i = (int)S->st.size() - 1; i >= 0 && n < maxn; --i) {
    Frame &f = S->st[i]; if (f.bb >= (int)f.f->bbs.size()) continue; auto &ins = f.f->bbs[f.bb].ins; if (f.ip >= (int)ins.size()) continue;
    Instruction *I = ins[f.ip].I; const DILocation *d = I->getDebugLoc().get(); if (!d) { s += (n ? " < " : "") + f.f->name; ++n; continue; }
    for (; d && n < maxn; d = d->getInlinedAt(), ++n) s += (n ? " < " : "") + dlStr(d);
  }
  return s;
}
static std::string where() { return whereChain(8); }
static void markCov(BB &B) {
  B.seen = true;
  for (auto &x : B.ins) for (const DILocation *d = x.I->getDebugLoc().get(); d; d = d->getInlinedAt()) {
    auto *sp = d->getScope()->getSubprogram(); if (!sp) continue; std::string fn = sp->getFilename().str(); size_t p = fn.find("/src/"); 
    if (p == std::string::npos || (fn.find("/hif/") == std::string::npos && fn.find("libhifir") == std::string::npos)) continue;
    COVFN.insert(fn.substr(p + 1) + ":" + sp->getName().str());
  }
}
