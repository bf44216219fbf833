// Greedy driver, dialect conversion, pass managers and the generic passes of the stand-in.
#include "core.h"
namespace mini { std::map<std::string, std::string> patterns; }
namespace mlir {
//===--------------------------------------------------------------- RewriterBase
void RewriterBase::replaceOp(Operation *op, ValueRange v) {
  SmallVector<Value> vals(v);
  if (vals.size() != op->getNumResults()) mini::unreachable("replaceOp: the number of values is not the number of results", "RewriterBase", 0);
  for (unsigned i = 0; i < vals.size(); i++) { Value r = op->getResult(i); if (!vals[i]) { if (!r.use_empty()) mini::unreachable("replaceOp: a used result is replaced by a null value", "RewriterBase", 0); continue; } replaceAllUsesWith(r, vals[i]); }
  eraseOp(op);
}
void RewriterBase::eraseOp(Operation *op) {
  if (!op->use_empty()) mini::unreachable("eraseOp: expected '" + op->getName().getStringRef().str() + "' to have no uses", "RewriterBase", 0);
  if (block && op->getBlock() == block && it != block->end() && &*it == op) ++it;
  if (listener) { op->walk([&](Operation *o) { listener->notifyOperationErased(o); }); }
  op->erase();
}
void RewriterBase::eraseBlock(Block *b) { if (listener) b->walk([&](Operation *o) { listener->notifyOperationErased(o); }); for (auto &o : llvm::make_early_inc_range(llvm::reverse(b->ops))) { o.dropAllUses(); } b->erase(); }
void RewriterBase::replaceAllUsesWith(Value a, Value b) {
  if (a == b) return;
  SmallVector<Operation *> users; for (auto *u : a.getUsers()) users.push_back(u);
  a.replaceAllUsesWith(b);
  for (auto *u : users) modified(u);
}
void RewriterBase::inlineRegionBefore(Region &r, Region &parent, Region::iterator before) { while (!r.empty()) { Block &b = r.front(); r.blocks.remove(b); parent.blocks.insert(before, b); b.region = &parent; } touched(); }
void RewriterBase::cloneRegionBefore(Region &r, Region &parent, Region::iterator before, IRMapping &m) { std::set<Block *> old; for (Block &b : parent.blocks) old.insert(&b); r.cloneInto(&parent, before, m); if (listener) for (Block &b : parent.blocks) if (!old.count(&b)) b.walk([&](Operation *o) { listener->notifyOperationInserted(o); }); }
void RewriterBase::cloneRegionBefore(Region &r, Region &parent, Region::iterator before) { IRMapping m; cloneRegionBefore(r, parent, before, m); }
void RewriterBase::cloneRegionBefore(Region &r, Block *before) { cloneRegionBefore(r, *before->getParent(), Region::iterator(*before)); }
void RewriterBase::inlineBlockBefore(Block *src, Block *dst, Block::iterator before, ValueRange args) {
  SmallVector<Value> vals(args); if (vals.size() != src->getNumArguments()) mini::unreachable("inlineBlockBefore: wrong number of arguments", "RewriterBase", 0);
  for (unsigned i = 0; i < vals.size(); i++) replaceAllUsesWith(src->getArgument(i), vals[i]);
  while (!src->empty()) { Operation *o = &src->front(); o->moveBefore(dst, before); modified(o); }
  if (src->getParent()) src->erase();
}
//===------------------------------------------------------------------- patterns
static std::string shortName(StringRef n) { auto p = n.rfind("::"); return (p == StringRef::npos ? n : n.substr(p + 2)).str(); }
FrozenRewritePatternSet::FrozenRewritePatternSet(RewritePatternSet &&s, ArrayRef<std::string> off, ArrayRef<std::string>) : patterns(std::move(s.patterns)) {
  std::stable_sort(patterns.begin(), patterns.end(), [](auto &a, auto &b) { return b->benefit < a->benefit; });
  for (auto &p : patterns) mini::patterns[shortName(p->debug)] = p->root;
  for (auto &p : patterns) (p->root.empty() ? any : byRoot[p->root]).push_back(p.get());
}
std::vector<RewritePattern *> FrozenRewritePatternSet::forOp(Operation *op) const {
  std::vector<RewritePattern *> r; auto it = byRoot.find(op->getName().getStringRef().str()); if (it != byRoot.end()) r = it->second;
  for (auto *p : any) if (p->appliesTo(op)) r.push_back(p);
  std::stable_sort(r.begin(), r.end(), [](auto *a, auto *b) { return b->benefit < a->benefit; });
  return r;
}
} // namespace mlir
namespace mini { int order = 0; long rewriteCap = 20000; std::map<std::string, long> fired; }
namespace mlir {
static std::string sig(Operation *op) { std::string k; llvm::raw_string_ostream os(k); os << str(op->getAttrDictionary()); for (Value v : op->getOperands()) os << " " << v.getImpl(); for (Type t : op->getResultTypes()) os << t; os.flush(); return k; }
namespace {
struct GreedyDriver : OpBuilder::Listener {
  struct Rw : PatternRewriter { Rw(MLIRContext *c, GreedyDriver &d) : PatternRewriter(c), d(d) { listener = &d; } GreedyDriver &d; void modified(Operation *o) override { d.push(o); d.changed = true; } void touched() override { d.changed = true; } };
  GreedyDriver(MLIRContext *c, const FrozenRewritePatternSet &p, const GreedyRewriteConfig &cfg) : rw(c, *this), p(p), cfg(cfg) {}
  Rw rw; const FrozenRewritePatternSet &p; GreedyRewriteConfig cfg; std::vector<Operation *> list; std::set<Operation *> in; bool changed = false; long n = 0; Operation *root = nullptr; std::set<Operation *> *only = nullptr; bool addNew = true;
  void push(Operation *o) { if (only && !only->count(o)) return; if (in.insert(o).second) list.push_back(o); }
  Operation *pop() { while (!list.empty()) { Operation *o; if (mini::order == 1 && list.size()) { o = list.front(); list.erase(list.begin()); } else { o = list.back(); list.pop_back(); } if (o && in.erase(o)) return o; } return nullptr; }
  void notifyOperationInserted(Operation *o) override { changed = true; if (only && addNew) only->insert(o); push(o); }
  void notifyOperationErased(Operation *o) override {
    SmallVector<Operation *> all; walkImpl(o, WalkOrder::PreOrder, [&](Operation *x) { all.push_back(x); return WalkResult::advance(); });
    changed = true; for (auto *x : all) for (Value v : x->getOperands()) if (v) if (auto *d = v.getDefiningOp()) push(d);
    for (auto *x : all) { if (in.erase(x)) for (auto &y : list) if (y == x) y = nullptr; if (only) only->erase(x); }
  }
  bool process() {
    bool any = false;
    while (Operation *op = pop()) {
      if (++n > mini::rewriteCap) mini::unreachable("the greedy rewrite does not terminate", "applyPatternsGreedily", 0);
      if (op != root && isOpTriviallyDead(op)) { rw.eraseOp(op); any = true; continue; }
      if (cfg.foldEnabled && op != root && !op->hasTrait<OpTrait::ConstantLike>()) {
        SmallVector<OpFoldResult> r; rw.setInsertionPoint(op);
        std::string before = sig(op);
        if (succeeded(op->fold(r))) {
          if (r.empty()) { std::string after = sig(op); if (after != before) mini::fired["fold-in-place " + op->getName().getStringRef().str()]++; changed = any = true; for (auto *u : op->getUsers()) push(u); push(op); if (after != before) continue; in.erase(op); for (auto &x : list) if (x == op) x = nullptr; }
          else {
            SmallVector<Value> vals; bool ok = true; SmallVector<Operation *> made;
            for (auto [f, t] : llvm::zip(r, op->getResultTypes())) {
              PointerUnion<Attribute, Value> u = f;
              if (u.isNull()) mini::unreachable("fold of '" + op->getName().getStringRef().str() + "' succeeds with a null result", "fold", 0);
              if (auto v = llvm::dyn_cast_if_present<Value>(u)) { if (v.getType() != Type(t)) { ok = false; break; } vals.push_back(v); continue; }
              Operation *c = op->getDialect()->materializeConstant(rw, llvm::cast<Attribute>(u), t, op->getLoc());
              if (!c) { ok = false; break; }
              if (c->getResult(0).getType() != Type(t)) mini::unreachable("fold of '" + op->getName().getStringRef().str() + "': constant of type " + str(c->getResult(0).getType()) + " for a result of type " + str(Type(t)), "fold", 0);
              made.push_back(c); vals.push_back(c->getResult(0));
            }
            if (ok) { mini::fired["fold " + op->getName().getStringRef().str()]++; rw.replaceOp(op, vals); any = true; continue; }
            for (auto *m : llvm::reverse(made)) rw.eraseOp(m);
          }
        }
      }
      for (auto *pat : p.forOp(op)) {
        changed = false; rw.setInsertionPoint(op); size_t live = mini::live().size();
        auto r = pat->matchAndRewrite(op, rw);
        if (succeeded(r)) { mini::fired[shortName(pat->debug)]++; any = true; break; }
        if (mini::live().size() != live || (changed)) mini::fired["dirty-failure " + shortName(pat->debug)]++;
        if (!mini::live().count(op)) mini::unreachable("pattern " + shortName(pat->debug) + " fails after having erased its operation", "applyPatternsGreedily", 0);
      }
    }
    return any;
  }
};
} // namespace
LogicalResult applyPatternsGreedily(Region &r, const FrozenRewritePatternSet &p, GreedyRewriteConfig c, bool *changed) {
  Operation *root = r.getParentOp(); GreedyDriver d(root->getContext(), p, c); d.root = root; bool ch = false, again = true; int64_t iter = 0;
  while (again) {
    if (c.maxIterations != GreedyRewriteConfig::kNoLimit && iter >= c.maxIterations) { if (changed) *changed = ch; return failure(); }
    iter++;
    SmallVector<Operation *> ops; if (c.topDown) { for (auto &b : r.blocks) for (auto &o : b.ops) walkImpl(&o, WalkOrder::PreOrder, [&](Operation *x) { ops.push_back(x); return WalkResult::advance(); }); std::reverse(ops.begin(), ops.end()); } else r.walk([&](Operation *x) { ops.push_back(x); });
    if (mini::order) std::reverse(ops.begin(), ops.end());
    d.list.clear(); d.in.clear(); for (auto *o : ops) d.push(o);
    again = d.process(); ch |= again;
  }
  if (changed) *changed = ch;
  return success();
}
LogicalResult applyPatternsGreedily(Operation *op, const FrozenRewritePatternSet &p, GreedyRewriteConfig c, bool *changed) { bool any = false, f = false; for (auto &r : op->getRegions()) { bool ch = false; if (failed(applyPatternsGreedily(r, p, c, &ch))) f = true; any |= ch; } if (changed) *changed = any; return success(!f); }
LogicalResult applyOpPatternsGreedily(ArrayRef<Operation *> ops, const FrozenRewritePatternSet &p, GreedyRewriteConfig c, bool *changed, bool *allErased) {
  if (ops.empty()) return success();
  GreedyDriver d(ops[0]->getContext(), p, c); std::set<Operation *> only(ops.begin(), ops.end()); if (c.strictness != GreedyRewriteStrictness::AnyOp) { d.only = &only; d.addNew = c.strictness == GreedyRewriteStrictness::ExistingAndNewOps; } else d.only = nullptr;
  for (auto *o : llvm::reverse(ops)) d.push(o);
  bool any = d.process(); if (changed) *changed = any; if (allErased) *allErased = only.empty(); return success();
}
void walkAndApplyPatterns(Operation *op, const FrozenRewritePatternSet &p) { SmallVector<Operation *> ops; op->walk([&](Operation *o) { if (o != op) ops.push_back(o); }); GreedyRewriteConfig c; c.foldEnabled = false; GreedyDriver d(op->getContext(), p, c); for (auto *o : ops) { if (!mini::live().count(o)) continue; d.rw.setInsertionPoint(o); for (auto *x : p.forOp(o)) if (succeeded(x->matchAndRewrite(o, d.rw))) break; } }

//===----------------------------------------------------------- dialect conversion
LogicalResult TypeConverter::convertType(Type t, SmallVectorImpl<Type> &r) const { for (auto &c : llvm::reverse(convs)) if (auto x = c(t, r)) return *x; return failure(); }
Type TypeConverter::convertType(Type t) const { SmallVector<Type> r; if (failed(convertType(t, r)) || r.size() != 1) return Type(); return r[0]; }
LogicalResult TypeConverter::convertTypes(TypeRange t, SmallVectorImpl<Type> &r) const { for (Type x : t) if (failed(convertType(x, r))) return failure(); return success(); }
bool TypeConverter::isLegal(Operation *op) const { return isLegal(op->getOperandTypes()) && isLegal(op->getResultTypes()); }
LogicalResult TypeConverter::convertSignatureArg(unsigned i, Type t, SignatureConversion &c) const { SmallVector<Type> r; if (failed(convertType(t, r))) return failure(); c.addInputs(i, r); return success(); }
LogicalResult TypeConverter::convertSignatureArgs(TypeRange t, SignatureConversion &c, unsigned off) const { unsigned i = 0; for (Type x : t) if (failed(convertSignatureArg(off + i++, x, c))) return failure(); return success(); }
Value TypeConverter::materializeSource(OpBuilder &b, Location l, Type t, ValueRange v) const { for (auto &m : llvm::reverse(source)) if (Value x = m(b, t, v, l)) return x; return {}; }
Value TypeConverter::materializeTarget(OpBuilder &b, Location l, Type t, ValueRange v) const { for (auto &m : llvm::reverse(target)) if (Value x = m(b, t, v, l)) return x; return {}; }
static Value castTo(OpBuilder &b, Location l, Type t, ValueRange v) { return UnrealizedConversionCastOp::create(b, l, TypeRange(ArrayRef<Type>(t)), v).getOperation()->getResult(0); }
void ConversionPatternRewriter::replaceAllUsesWith(Value a, Value b) {
  if (a == b) return;
  if (a.getType() != b.getType()) { InsertionGuard g(*this); if (auto *d = b.getDefiningOp()) setInsertionPointAfter(d); else setInsertionPointToStart(b.getParentBlock()); Value m; if (tc) m = tc->materializeSource(*this, b.getLoc(), a.getType(), ValueRange(b)); if (!m) m = castTo(*this, b.getLoc(), a.getType(), ValueRange(b)); b = m; }
  RewriterBase::replaceAllUsesWith(a, b);
}
void ConversionPatternRewriter::replaceOp(Operation *op, ValueRange v) { RewriterBase::replaceOp(op, v); }
void ConversionPatternRewriter::eraseOp(Operation *op) { if (!op->use_empty()) { op->dropAllUses(); } if (op == current) current = nullptr; created.erase(std::remove(created.begin(), created.end(), op), created.end()); RewriterBase::eraseOp(op); }
Block *ConversionPatternRewriter::applySignatureConversion(Block *b, TypeConverter::SignatureConversion &c, const TypeConverter *t) {
  unsigned n = b->getNumArguments(); auto *old = tc; if (t) tc = t; InsertionGuard g(*this);
  SmallVector<BlockArgument> add; for (Type ty : c.types) add.push_back(b->addArgument(ty, UnknownLoc::get(getContext())));
  for (unsigned i = 0; i < n; i++) {
    Value o = b->getArgument(i), nv; auto &in = c.map[i]; setInsertionPointToStart(b);
    if (in.v) nv = in.v; else if (in.n == 1) nv = add[in.start]; else { SmallVector<Value> vs; for (unsigned k = 0; k < in.n; k++) vs.push_back(add[in.start + k]); if (o.use_empty()) continue; if (tc) nv = tc->materializeSource(*this, o.getLoc(), o.getType(), ValueRange(vs)); if (!nv) nv = castTo(*this, o.getLoc(), o.getType(), ValueRange(vs)); }
    if (o.getType() != nv.getType()) { if (o.use_empty()) continue; Value m; if (tc) m = tc->materializeSource(*this, o.getLoc(), o.getType(), ValueRange(nv)); if (!m) m = castTo(*this, o.getLoc(), o.getType(), ValueRange(nv)); o.replaceAllUsesWith(m); }
    else o.replaceAllUsesWith(nv);
  }
  b->eraseArguments(0, n); tc = old; return b;
}
Value ConversionPatternRewriter::getRemappedValue(Value v) { return v; }
LogicalResult ConversionPattern::matchAndRewrite(Operation *op, PatternRewriter &rewriter) const {
  auto &rw = static_cast<ConversionPatternRewriter &>(rewriter); rw.tc = typeConverter; SmallVector<Value> ops;
  for (Value v : op->getOperands()) {
    if (typeConverter) { Type t = typeConverter->convertType(v.getType()); if (!t) return failure(); if (t != v.getType()) { Operation *d = v.getDefiningOp(); if (d && d->getNumOperands() == 1 && d->getOperand(0).getType() == t && d->getNumResults() == 1 && (llvm::isa<UnrealizedConversionCastOp>(d) || d->getName().getStringRef().contains("static_info_cast") || d->getName().getStringRef() == "torch.copy.to_tensor")) v = d->getOperand(0); else { Value m = typeConverter->materializeTarget(rw, op->getLoc(), t, ValueRange(v)); v = m ? m : castTo(rw, op->getLoc(), t, ValueRange(v)); } } }
    ops.push_back(v);
  }
  return matchAndRewrite(op, ArrayRef<Value>(ops), rw);
}
std::optional<bool> ConversionTarget::legal(Operation *op) const {
  auto ask = [&](const Rule &r) -> std::optional<bool> { if (r.a == LegalizationAction::Legal) return true; if (r.a == LegalizationAction::Illegal) return false; if (!r.f) return std::nullopt; return r.f(op); };
  auto it = ops.find(op->getName().getStringRef().str()); if (it != ops.end()) return ask(it->second);
  auto d = dialects.find(op->getName().getDialectNamespace().str()); if (d != dialects.end()) return ask(d->second);
  if (hasUnknown) return ask(unknown);
  return std::nullopt;
}
namespace {
struct ConvDriver : OpBuilder::Listener {
  struct Rw : ConversionPatternRewriter { Rw(MLIRContext *c, OpBuilder::Listener *l) : ConversionPatternRewriter(c) { listener = l; } };
  ConvDriver(MLIRContext *c, const ConversionTarget &t, const FrozenRewritePatternSet &p, bool full) : rw(c, this), t(t), p(p), full(full) {}
  Rw rw; const ConversionTarget &t; const FrozenRewritePatternSet &p; bool full; int depth = 0;
  void notifyOperationInserted(Operation *o) override { rw.created.push_back(o); }
  void notifyOperationErased(Operation *o) override { rw.created.erase(std::remove(rw.created.begin(), rw.created.end(), o), rw.created.end()); }
  bool legalize(Operation *op) {
    auto l = t.legal(op);
    if (l && *l) return true;
    if (depth > 40) return false;
    // folding first, as the real driver does
    { SmallVector<Value> r; rw.setInsertionPoint(op); auto saved = rw.created; rw.created.clear(); if (!op->hasTrait<OpTrait::ConstantLike>() && succeeded(rw.tryFold(op, r)) && !r.empty()) { auto made = rw.created; rw.replaceOp(op, ValueRange(r)); bool ok = true; for (auto *m : made) if (mini::live().count(m)) ok &= legalize(m); rw.created = saved; return ok || !full; } rw.created = saved; }
    for (auto *pat : p.forOp(op)) {
      auto saved = rw.created; rw.created.clear(); rw.setInsertionPoint(op); rw.tc = nullptr;
      depth++; bool ok = succeeded(pat->matchAndRewrite(op, rw));
      if (ok) {
        mini::fired[shortName(pat->debug)]++; auto made = rw.created; rw.created = saved; bool all = true;
        for (auto *m : made) if (mini::live().count(m)) { auto lm = t.legal(m); if (lm && !*lm) all &= legalize(m); else if (!lm && depth < 40) { bool could = !p.forOp(m).empty(); if (could && !llvm::is_contained(path, m->getName().getStringRef().str())) legalize(m); } }
        depth--; 
        if (mini::live().count(op)) { auto lo = t.legal(op); if (lo && !*lo) all = false; }
        return all;
      }
      depth--;
      if (!mini::live().count(op)) mini::unreachable("pattern " + shortName(pat->debug) + " fails after having erased its operation", "applyConversion", 0);
      for (auto *m : llvm::reverse(std::vector<Operation *>(rw.created))) if (mini::live().count(m)) { m->dropAllUses(); m->erase(); }
      rw.created = saved;
    }
    return !(l.has_value() || full);
  }
  std::vector<std::string> path;
  LogicalResult run(Operation *root) {
    SmallVector<Operation *> ops; walkImpl(root, WalkOrder::PreOrder, [&](Operation *o) { ops.push_back(o); return WalkResult::advance(); });
    for (auto *o : ops) { if (!mini::live().count(o)) continue; std::string n = o->getName().getStringRef().str(); auto l0 = t.legal(o); if (!legalize(o)) { if (mini::live().count(o)) o->emitError("failed to legalize operation '" + n + "'" + (l0 ? " that was explicitly marked illegal" : "")); else emitError(root->getLoc(), "failed to legalize operation '" + n + "'"); return failure(); } }
    // reconcile casts
    SmallVector<Operation *> casts; root->walk([&](UnrealizedConversionCastOp c) { casts.push_back(c); });
    for (auto *c : casts) { for (auto *u : SmallVector<Operation *>(c->getUsers())) if (llvm::isa<UnrealizedConversionCastOp>(u) && u->getNumResults() == c->getNumOperands() && TypeRange(u->getResultTypes()) .size() && u->getResult(0).getType() == c->getOperand(0).getType()) { u->replaceAllUsesWith(c->getOperands()); } }
    for (auto *c : llvm::reverse(casts)) if (c->use_empty()) c->erase();
    return success();
  }
};
} // namespace
LogicalResult applyPartialConversion(Operation *op, const ConversionTarget &t, const FrozenRewritePatternSet &p) { ConvDriver d(op->getContext(), t, p, false); return d.run(op); }
LogicalResult applyFullConversion(Operation *op, const ConversionTarget &t, const FrozenRewritePatternSet &p) { ConvDriver d(op->getContext(), t, p, true); return d.run(op); }
void populateFunctionOpInterfaceTypeConversionPattern(StringRef, RewritePatternSet &, const TypeConverter &) {}

//===----------------------------------------------------------------------- passes
LogicalResult OpPassManager::run(Operation *op) {
  for (auto &[p, sub] : items) {
    if (p) {
      if (name.empty() && !p->schedulable(op)) { for (auto &r : op->getRegions()) for (auto &b : r.blocks) for (auto &o : llvm::make_early_inc_range(b.ops)) if (p->schedulable(&o) && failed(p->runOn(&o))) return failure(); continue; }
      if (failed(p->runOn(op))) return failure();
    } else for (auto &r : op->getRegions()) for (auto &b : r.blocks) { SmallVector<Operation *> ops; for (auto &o : b.ops) ops.push_back(&o); for (auto *o : ops) if (mini::live().count(o) && o->getName().getStringRef() == sub->name && failed(sub->run(o))) return failure(); }
  }
  return success();
}
LogicalResult Pass::runPipeline(OpPassManager &pm, Operation *o) { return pm.run(o); }
namespace {
struct Canonicalizer : OperationPass<> {
  GreedyRewriteConfig cfg; Canonicalizer(GreedyRewriteConfig c) : cfg(c) {}
  void runOnOperation() override { RewritePatternSet ps(&getContext()); for (auto &[n, d] : getContext().dialects) d->getCanonicalizationPatterns(ps); for (auto &[n, i] : getContext().ops) if (i->canon) i->canon(ps, &getContext()); (void)applyPatternsGreedily(op, FrozenRewritePatternSet(std::move(ps)), cfg); }
};
struct Inliner : OperationPass<> { void runOnOperation() override {
  bool again = true; int n = 0;
  while (again && n++ < 50) {
    again = false; SmallVector<Operation *> calls; op->walk([&](func::CallOp c) { calls.push_back(c); });
    for (auto *c : calls) {
      auto *callee = SymbolTable::lookupSymbolIn(op, c->getAttrOfType<FlatSymbolRefAttr>("callee")); if (!callee || callee->getRegion(0).empty() || callee->isAncestor(c) || !callee->getRegion(0).hasOneBlock()) continue;
      OpBuilder b(c); IRMapping m; Block &body = callee->getRegion(0).front(); for (unsigned i = 0; i < body.getNumArguments(); i++) m.map(body.getArgument(i), c->getOperand(i));
      for (auto &o : body.ops) { if (o.hasTrait<OpTrait::ReturnLike>()) { for (unsigned i = 0; i < o.getNumOperands(); i++) c->getResult(i).replaceAllUsesWith(m.lookupOrDefault(o.getOperand(i))); } else b.insert(o.clone(m)); }
      c->erase(); again = true;
    }
  }
  SmallVector<Operation *> dead; for (auto &o : op->getRegion(0).front().ops) if (auto f = llvm::dyn_cast<func::FuncOp>(o)) if (SymbolOpInterface(&o).isPrivate() && SymbolTable::symbolKnownUseEmpty(&o, op)) dead.push_back(&o);
  for (auto *d : dead) d->erase();
} };
struct SymDCE : OperationPass<> { void runOnOperation() override { bool again = true; while (again) { again = false; SmallVector<Operation *> dead; for (auto &o : op->getRegion(0).front().ops) if (SymbolOpInterface::classof(&o) && SymbolOpInterface(&o).isPrivate() && SymbolTable::symbolKnownUseEmpty(&o, op)) dead.push_back(&o); for (auto *d : dead) { d->erase(); again = true; } } } };
struct CSE : OperationPass<> { void block(Block &b, std::map<std::string, Operation *> known) {
  for (auto &o : llvm::make_early_inc_range(b.ops)) {
    for (auto &r : o.getRegions()) for (auto &x : r.blocks) block(x, known);
    if (isOpTriviallyDead(&o)) { o.erase(); continue; }
    if (o.getNumRegions() || !isMemoryEffectFree(&o) || !o.getNumResults()) continue;
    std::string k; llvm::raw_string_ostream os(k); os << o.getName() << str(o.getAttrDictionary()); for (Value v : o.getOperands()) os << " " << v.getImpl(); for (Type t : o.getResultTypes()) os << " " << t; os.flush();
    auto it = known.find(k); if (it != known.end()) { o.replaceAllUsesWith(it->second->getResults()); o.erase(); } else known[k] = &o;
  } }
  void runOnOperation() override { for (auto &r : op->getRegions()) for (auto &b : r.blocks) block(b, {}); } };
} // namespace
std::unique_ptr<Pass> createCanonicalizerPass(const GreedyRewriteConfig &c, ArrayRef<std::string>, ArrayRef<std::string>) { return std::make_unique<Canonicalizer>(c); }
std::unique_ptr<Pass> createInlinerPass() { return std::make_unique<Inliner>(); } std::unique_ptr<Pass> createCSEPass() { return std::make_unique<CSE>(); } std::unique_ptr<Pass> createSymbolDCEPass() { return std::make_unique<SymDCE>(); }

//===----------------------------------------------------------------------- slices
static void slice(Operation *op, SetVector<Operation *> *s, const BackwardSliceOptions &o) {
  if (!op || llvm::isa<ModuleOp>(op)) return; if (o.filter && !o.filter(op)) return;
  for (Value v : op->getOperands()) { if (auto *d = v.getDefiningOp()) { if (!s->count(d)) slice(d, s, o); } else if (!o.omitBlockArguments) { Operation *par = llvm::cast<BlockArgument>(v).getOwner()->getParentOp(); if (par && !s->count(par) && !par->hasTrait<OpTrait::IsIsolatedFromAbove>()) slice(par, s, o); } }
  s->insert(op);
}
LogicalResult getBackwardSlice(Operation *op, SetVector<Operation *> *s, const BackwardSliceOptions &o) { slice(op, s, o); if (!o.inclusive) s->remove(op); return success(); }
LogicalResult getBackwardSlice(Value v, SetVector<Operation *> *s, const BackwardSliceOptions &o) { if (auto *d = v.getDefiningOp()) return getBackwardSlice(d, s, o); return success(); }
SetVector<Operation *> topologicalSort(const SetVector<Operation *> &s) { SetVector<Operation *> r; std::function<void(Operation *)> go = [&](Operation *o) { if (r.count(o)) return; for (Value v : o->getOperands()) if (auto *d = v.getDefiningOp()) if (s.count(d)) go(d); r.insert(o); }; for (auto *o : s) go(o); return r; }
//===--------------------------------------------------------------------- verifier
static bool checkUse(Operation *op, std::string &why, std::set<detail::ValueImpl *> &visible) {
  for (Value v : op->getOperands()) { if (!v) { why = "null operand of '" + op->getName().getStringRef().str() + "'"; return false; } if (!visible.count(v.getImpl())) { why = "operand of '" + op->getName().getStringRef().str() + "' does not dominate its use"; return false; } }
  return true;
}
static bool checkBlock(Block &b, std::string &why, std::set<detail::ValueImpl *> visible);
static bool checkOp(Operation &o, std::string &why, std::set<detail::ValueImpl *> &visible) {
  if (!checkUse(&o, why, visible)) return false;
  bool iso = o.hasTrait<OpTrait::IsIsolatedFromAbove>();
  for (auto &r : o.getRegions()) for (auto &b : r.blocks) if (!checkBlock(b, why, iso ? std::set<detail::ValueImpl *>() : visible)) return false;
  if (o.hasTrait<OpTrait::IsTerminator>() && o.getBlock() && &o.getBlock()->back() != &o) { why = "terminator '" + o.getName().getStringRef().str() + "' in the middle of a block"; return false; }
  if (o.name.info->verify && failed(o.name.info->verify(&o))) { why = "'" + o.getName().getStringRef().str() + "' does not verify"; auto &d = o.getContext()->diags; if (!d.empty()) why += ": " + d.back().second; return false; }
  for (OpResult r : o.getResults()) visible.insert(r.getImpl());
  return true;
}
static bool checkBlock(Block &b, std::string &why, std::set<detail::ValueImpl *> visible) { for (auto a : b.getArguments()) visible.insert(a.getImpl()); for (auto &o : b.ops) if (!checkOp(o, why, visible)) return false; return true; }
LogicalResult verify(Operation *op) { std::string why; std::set<detail::ValueImpl *> v; if (!checkOp(*op, why, v)) { emitError(op->getLoc(), why); return failure(); } return success(); }
} // namespace mlir
