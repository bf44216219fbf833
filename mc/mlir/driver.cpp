// Reads one request per line, runs passes of the repository on the module in it, and answers with the module they leave.
#include "core.h"
#include "llvm/Support/JSON.h"
#include "torch-mlir/Dialect/Torch/IR/TorchDialect.h"
#include "torch-mlir/Dialect/Torch/IR/TorchOps.h"
#include "torch-mlir/Dialect/Torch/Transforms/Passes.h"
#include <csignal>
#include <iostream>
#include <unistd.h>
using namespace mlir;
using llvm::json::Array; using llvm::json::Object; using JV = llvm::json::Value;
using Opts = Object;
static std::map<std::string, std::function<void(OpPassManager &, const Opts &)>> passes;
static std::vector<std::string> strings(const Opts &o, StringRef k) { std::vector<std::string> r; if (auto *a = o.getArray(k)) for (auto &x : *a) r.push_back(x.getAsString()->str()); return r; }
#include "passes.inc"
namespace mlir::torch::Torch { FailureOr<Attribute> getSparsityWithDenseLTAtDim(Attribute a, Value) { if (a) mini::unreachable("sparse encodings are not covered", "driver", 0); return Attribute(); } }
struct Bad : std::runtime_error { using runtime_error::runtime_error; };
static std::map<std::string, Type> typeCache; static std::map<std::string, Attribute> attrCache;
static Type ty(MLIRContext *c, StringRef s) { auto &t = typeCache[s.str()]; if (!t) t = parseType(s, c); if (!t) throw Bad("type? " + s.str()); return t; }
static Attribute at(MLIRContext *c, StringRef s) { Attribute a; if (s.size() < 200) { auto &x = attrCache[s.str()]; if (!x) x = parseAttribute(s, c); a = x; } else a = parseAttribute(s, c); if (!a) throw Bad("attribute? " + s.str()); return a; }
using Env = std::map<int64_t, Value>;
static void readBlock(MLIRContext *c, const Object &b, Block *blk, Env &env);
static Operation *readOp(MLIRContext *c, const Object &o, Env &env) {
  std::string n = o.getString("n")->str(); OperationState st(UnknownLoc::get(c), n);
  if (auto *a = o.getArray("o")) for (auto &x : *a) { auto it = env.find(*x.getAsInteger()); if (it == env.end()) throw Bad("operand of " + n + " is not defined"); st.operands.push_back(it->second); }
  if (auto *a = o.getArray("r")) for (auto &x : *a) st.addTypes(ty(c, *(*x.getAsArray())[1].getAsString()));
  if (auto *a = o.getObject("a")) for (auto &[k, v] : *a) st.addAttribute(StringRef(k), at(c, *v.getAsString()));
  if (auto *g = o.getArray("g")) for (size_t i = 0; i < g->size(); i++) st.addRegion();
  auto *op = Operation::create(st);
  if (auto *a = o.getArray("r")) for (size_t i = 0; i < a->size(); i++) env[*(*(*a)[i].getAsArray())[0].getAsInteger()] = op->getResult(i);
  if (auto *g = o.getArray("g")) for (size_t i = 0; i < g->size(); i++) for (auto &b : *(*g)[i].getAsArray()) { auto *blk = new Block(); op->getRegion(i).push_back(blk); Env inner = env; readBlock(c, *b.getAsObject(), blk, inner); }
  return op;
}
static void readBlock(MLIRContext *c, const Object &b, Block *blk, Env &env) {
  if (auto *a = b.getArray("args")) for (auto &x : *a) env[*(*x.getAsArray())[0].getAsInteger()] = blk->addArgument(ty(c, *(*x.getAsArray())[1].getAsString()), UnknownLoc::get(c));
  for (auto &o : *b.getArray("ops")) blk->push_back(readOp(c, *o.getAsObject(), env));
}
template <typename T> static std::string text(T t) { std::string s; llvm::raw_string_ostream os(s); t.print(os); return os.str(); }
struct Writer {
  llvm::DenseMap<Value, int64_t> ids; int64_t n = 0;
  int64_t def(Value v) { return ids[v] = n++; }
  JV op(Operation &o) {
    Object r; r["n"] = o.getName().getStringRef().str();
    Array in; for (Value v : o.getOperands()) { auto it = ids.find(v); in.push_back(it == ids.end() ? (int64_t)-1 : it->second); } r["o"] = std::move(in);
    Array out; for (Value v : o.getResults()) out.push_back(Array{def(v), text(v.getType())}); r["r"] = std::move(out);
    if (!o.getAttrs().empty()) { Object a; for (auto x : o.getAttrs()) a[x.getName().getValue().str()] = text(x.getValue()); r["a"] = std::move(a); }
    if (o.getNumRegions()) { Array g; for (auto &reg : o.getRegions()) { Array bs; for (Block &b : reg.blocks) bs.push_back(block(b)); g.push_back(std::move(bs)); } r["g"] = std::move(g); }
    return r;
  }
  JV block(Block &b) { Array a; for (Value v : b.getArguments()) a.push_back(Array{def(v), text(v.getType())}); Array ops; for (auto &o : b.ops) ops.push_back(op(o)); return Object{{"args", std::move(a)}, {"ops", std::move(ops)}}; }
};
static JV handle(MLIRContext &ctx, const Object &req) {
  Object rep; ctx.diags.clear(); mini::fired.clear(); mini::order = req.getInteger("order").value_or(0);
  OwningOpRef<ModuleOp> *keep = new OwningOpRef<ModuleOp>(ModuleOp::create(UnknownLoc::get(&ctx))); ModuleOp m = keep->get();
  Env env; if (auto *ma = req.getObject("mattrs")) for (auto &[k, v] : *ma) m->setAttr(StringRef(k), at(&ctx, *v.getAsString()));
  for (auto &o : *req.getArray("ops")) m.getBody()->push_back(readOp(&ctx, *o.getAsObject(), env));
  std::string stage = "verify"; bool ok = true, leak = false;
  try {
    if (!req.getBoolean("noverify").value_or(false) && failed(verify(m))) { ok = false; rep["invalid"] = true; }
    else for (auto &p : *req.getArray("pipeline")) {
      const Object *po = p.getAsObject(); stage = po ? po->getString("pass")->str() : p.getAsString()->str();
      auto it = passes.find(stage); if (it == passes.end()) throw Bad("no pass " + stage);
      Object none; PassManager pm(&ctx); it->second(pm, po ? *po : none);
      if (failed(pm.run(m))) { ok = false; rep["failed"] = stage; break; }
      stage = "verify after " + stage;
      if (failed(verify(m))) { ok = false; rep["failed"] = stage; rep["broken"] = true; break; }
    }
  } catch (mini::Crash &e) { rep["crash"] = std::string(e.what()); rep["failed"] = stage; ok = false; leak = true; }
  if (req.getBoolean("patterns").value_or(false)) { Object r; for (auto &[k, v] : mini::patterns) r[k] = v; rep["patterns"] = std::move(r); }
  rep["ok"] = ok;
  Array d; for (auto &x : ctx.diags) d.push_back(x.second); rep["diags"] = std::move(d);
  Object f; for (auto &[k, v] : mini::fired) f[k] = v; rep["fired"] = std::move(f);
  if (!leak) { Array ops; Writer w; for (auto &o : m.getBody()->ops) ops.push_back(w.op(o)); rep["ops"] = std::move(ops); try { delete keep; } catch (mini::Crash &) {} }
  return rep;
}
static JV fnames(MLIRContext &ctx) { Array a; for (auto &[k, v] : ctx.ops) if (v->registered) { Object o; o["n"] = k; o["fold"] = v->fold != nullptr; o["canon"] = v->canon != nullptr; o["verify"] = v->verify != nullptr; a.push_back(std::move(o)); } return a; }
int main() {
  MLIRContext ctx; ctx.getOrLoadDialect<torch::Torch::TorchDialect>();
  registerPasses(ctx);
  std::string line;
  while (std::getline(std::cin, line)) {
    auto v = llvm::json::parse(line); JV rep = nullptr;
    if (!v) { llvm::consumeError(v.takeError()); rep = Object{{"error", "JSON"}}; }
    else try { alarm(60); auto *o = v->getAsObject(); if (o->getBoolean("list").value_or(false)) rep = fnames(ctx); else rep = handle(ctx, *o); alarm(0); } catch (Bad &e) { rep = Object{{"error", std::string(e.what())}}; } catch (mini::Crash &e) { rep = Object{{"error", std::string("building the module: ") + e.what()}}; }
    std::string s; llvm::raw_string_ostream os(s); os << rep; os.flush(); std::cout << s << "\n" << std::flush;
  }
}
