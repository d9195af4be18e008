/* irx: normalise the LLVM IR of a witness translation unit and print the
   functions of interest as JSON.

   usage: irx IN.bc CONFIG OUT.json

   CONFIG lines:
     opaque REGEX   calls to functions whose simplified qualified name matches
                    are kept as calls (they are "primitive" for the rule)
     root REGEX     functions (linkage name or simplified name) to print
     unroll         fully unroll loops with constant trip counts
     thread         thread jumps over branches that are decided by where control comes from
     noinline       do not inline at all
     asserts        make every assertion condition (see witness/shim) a pure
                    function if it is one, and print what it writes
     calls          print, for every defined function, only its call sites,
                    global references and attributes (call graph mode)
     shape          like calls, but only the sequence of instructions of the
                    functions of the library

   Everything that isn't opaque is inlined into the roots, so extracting a
   helper from a function or folding one into it yields the same result. */
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/Regex.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/MapVector.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <fstream>
#include <string>
#include <vector>
#include <map>
#include <set>

using namespace llvm;

static std::string strip_templates(const std::string &s) {
    std::string r;
    int depth = 0;
    for(std::size_t i=0; i<s.size(); ++i) {
        char c = s[i];
        if(c == '<') {
            // operator<, operator<<, operator<=, operator<=>
            if(depth == 0 && r.size() >= 8 && r.compare(r.size()-8,8,"operator") == 0) { r += c; continue; }
            if(depth == 0 && r.size() >= 9 && r.compare(r.size()-9,9,"operator<") == 0) { r += c; continue; }
            ++depth;
            continue;
        }
        if(c == '>') {
            if(depth == 0 || (i && s[i-1] == '-')) { if(depth == 0) r += c; continue; }
            --depth;
            continue;
        }
        if(depth == 0) r += c;
    }
    return r;
}

static std::map<std::string,std::string> simp_cache;
static std::string simplified(StringRef mangled) {
    auto itr = simp_cache.find(mangled.str());
    if(itr != simp_cache.end()) return itr->second;
    std::string r = mangled.str();
    ItaniumPartialDemangler d;
    if(!d.partialDemangle(r.c_str())) {
        if(d.isFunction()) {
            std::size_t n = 0;
            char *ctx = d.getFunctionDeclContextName(nullptr,&n);
            std::string c = ctx ? ctx : "";
            std::free(ctx);
            n = 0;
            char *base = d.getFunctionBaseName(nullptr,&n);
            std::string b = base ? base : "";
            std::free(base);
            c = strip_templates(c);
            r = c.empty() ? b : c + "::" + b;
        } else {
            r = strip_templates(demangle(r));
        }
    }
    simp_cache[mangled.str()] = r;
    return r;
}

struct Out {
    json::OStream j;
    const DataLayout &dl;
    std::map<const Value*,int> ids;
    std::map<const BasicBlock*,int> bbs;
    std::set<const GlobalVariable*> globals;

    Out(raw_ostream &os,const DataLayout &dl) : j(os), dl(dl) {}

    std::string ty(Type *t) {
        std::string s;
        raw_string_ostream o(s);
        t->print(o,false,true);
        return o.str();
    }

    void constant_int(const APInt &v) {
        SmallString<40> s;
        v.toString(s,10,true);
        j.array([&] { j.value("c"); j.value(std::string(s.str())); j.value((int64_t)v.getBitWidth()); });
    }

    void operand(const Value *v) {
        if(auto i = dyn_cast<ConstantInt>(v)) { constant_int(i->getValue()); return; }
        if(auto f = dyn_cast<ConstantFP>(v)) {
            SmallString<40> s;
            f->getValueAPF().toString(s,17);
            j.array([&] { j.value("f"); j.value(std::string(s.str())); });
            return;
        }
        if(isa<ConstantPointerNull>(v)) { j.array([&] { j.value("null"); }); return; }
        if(isa<UndefValue>(v)) { j.array([&] { j.value("undef"); }); return; }
        if(auto f = dyn_cast<Function>(v)) {
            j.array([&] { j.value("fn"); j.value(f->getName()); j.value(simplified(f->getName())); });
            return;
        }
        if(auto g = dyn_cast<GlobalVariable>(v)) {
            globals.insert(g);
            j.array([&] { j.value("g"); j.value(g->getName()); });
            return;
        }
        if(auto g = dyn_cast<GlobalAlias>(v)) { operand(g->getAliasee()); return; }
        if(isa<ConstantAggregateZero>(v)) { j.array([&] { j.value("zero"); }); return; }
        if(auto s = dyn_cast<ConstantDataSequential>(v)) {
            j.array([&] { j.value("agg"); for(unsigned i=0;i<s->getNumElements();++i) operand(s->getElementAsConstant(i)); });
            return;
        }
        if(auto s = dyn_cast<ConstantAggregate>(v)) {
            j.array([&] { j.value("agg"); for(auto &o : s->operands()) operand(o); });
            return;
        }
        if(auto ce = dyn_cast<ConstantExpr>(v)) {
            if(auto g = dyn_cast<GEPOperator>(ce)) {
                APInt off(64,0);
                if(g->accumulateConstantOffset(dl,off)) {
                    j.array([&] { j.value("gep"); operand(g->getPointerOperand()); j.value(off.getSExtValue()); });
                    return;
                }
            }
            if(ce->getOpcode() == Instruction::IntToPtr || ce->getOpcode() == Instruction::PtrToInt || ce->getOpcode() == Instruction::BitCast) {
                j.array([&] { j.value("cast"); j.value(ce->getOpcodeName()); operand(ce->getOperand(0)); });
                return;
            }
            j.array([&] { j.value("ce"); j.value(ty(v->getType())); });
            return;
        }
        if(auto a = dyn_cast<Argument>(v)) { j.array([&] { j.value("a"); j.value((int64_t)a->getArgNo()); }); return; }
        auto itr = ids.find(v);
        if(itr != ids.end()) { j.array([&] { j.value("v"); j.value(itr->second); }); return; }
        j.array([&] { j.value("?"); });
    }

    void loc(const Instruction &i) {
        if(auto d = i.getDebugLoc().get()) {
            j.attribute("line",(int64_t)d->getLine());
            j.attribute("file",d->getFilename());
            if(auto sp = d->getScope()->getSubprogram()) j.attribute("scope",sp->getName());
        }
    }

    void instr(const Instruction &i) {
        j.object([&] {
            j.attribute("id",ids[&i]);
            j.attribute("op",i.getOpcodeName());
            j.attribute("ty",ty(i.getType()));
            loc(i);
            if(auto g = dyn_cast<GetElementPtrInst>(&i)) {
                APInt off(64,0);
                MapVector<Value*,APInt> vars;
                auto *go = cast<GEPOperator>(g);
                if(go->collectOffset(dl,64,vars,off)) {
                    j.attribute("off",off.getSExtValue());
                    j.attributeBegin("base"); operand(g->getPointerOperand()); j.attributeEnd();
                    j.attributeBegin("vars");
                    j.array([&] { for(auto &[v,s] : vars) j.array([&] { operand(v); j.value(s.getSExtValue()); }); });
                    j.attributeEnd();
                }
                return;
            }
            if(auto p = dyn_cast<PHINode>(&i)) {
                j.attributeBegin("in");
                j.array([&] {
                    for(unsigned k=0;k<p->getNumIncomingValues();++k)
                        j.array([&] { operand(p->getIncomingValue(k)); j.value(bbs[p->getIncomingBlock(k)]); });
                });
                j.attributeEnd();
                return;
            }
            if(auto b = dyn_cast<BranchInst>(&i)) {
                if(b->isConditional()) { j.attributeBegin("cond"); operand(b->getCondition()); j.attributeEnd(); }
                j.attributeBegin("succ");
                j.array([&] { for(unsigned k=0;k<b->getNumSuccessors();++k) j.value(bbs[b->getSuccessor(k)]); });
                j.attributeEnd();
                return;
            }
            if(auto s = dyn_cast<SwitchInst>(&i)) {
                j.attributeBegin("cond"); operand(s->getCondition()); j.attributeEnd();
                j.attribute("default",bbs[s->getDefaultDest()]);
                j.attributeBegin("cases");
                j.array([&] { for(auto &c : s->cases()) j.array([&] { operand(c.getCaseValue()); j.value(bbs[c.getCaseSuccessor()]); }); });
                j.attributeEnd();
                return;
            }
            if(auto c = dyn_cast<CallBase>(&i)) {
                if(auto inv = dyn_cast<InvokeInst>(c)) {
                    j.attribute("normal",bbs[inv->getNormalDest()]);
                    j.attribute("unwind",bbs[inv->getUnwindDest()]);
                }
                auto *callee = c->getCalledOperand()->stripPointerCastsAndAliases();
                if(auto ga = dyn_cast<GlobalAlias>(callee)) callee = ga->getAliasee()->stripPointerCasts();
                j.attributeBegin("callee"); operand(callee); j.attributeEnd();
                j.attributeBegin("args");
                j.array([&] { for(auto &a : c->args()) operand(a); });
                j.attributeEnd();
                j.attribute("rdonly",c->onlyReadsMemory());
                j.attribute("rdnone",c->doesNotAccessMemory());
                j.attribute("nounwind",c->doesNotThrow());
                if(c->hasStructRetAttr()) j.attribute("sret",true);
                if(auto as = dyn_cast<InlineAsm>(callee)) { j.attribute("asm",StringRef(as->getAsmString())); j.attribute("constraints",StringRef(as->getConstraintString())); }
                return;
            }
            if(auto e = dyn_cast<ExtractValueInst>(&i)) {
                j.attributeBegin("idx"); j.array([&] { for(auto k : e->indices()) j.value((int64_t)k); }); j.attributeEnd();
            }
            if(auto e = dyn_cast<InsertValueInst>(&i)) {
                j.attributeBegin("idx"); j.array([&] { for(auto k : e->indices()) j.value((int64_t)k); }); j.attributeEnd();
            }
            if(auto c = dyn_cast<CmpInst>(&i)) j.attribute("pred",CmpInst::getPredicateName(c->getPredicate()));
            if(auto a = dyn_cast<AllocaInst>(&i)) {
                j.attribute("aty",ty(a->getAllocatedType()));
                if(auto sz = a->getAllocationSize(dl)) j.attribute("size",(int64_t)sz->getFixedValue());
            }
            if(auto l = dyn_cast<LoadInst>(&i)) {
                j.attribute("size",(int64_t)dl.getTypeStoreSize(l->getType()).getFixedValue());
                if(l->isVolatile()) j.attribute("volatile",true);
            }
            if(auto s = dyn_cast<StoreInst>(&i)) {
                j.attribute("size",(int64_t)dl.getTypeStoreSize(s->getValueOperand()->getType()).getFixedValue());
                j.attribute("vty",ty(s->getValueOperand()->getType()));
                if(s->isVolatile()) j.attribute("volatile",true);
            }
            if(i.getNumOperands() && i.getOperand(0)->getType()) j.attribute("oty",ty(i.getOperand(0)->getType()));
            if(auto o = dyn_cast<OverflowingBinaryOperator>(&i)) { j.attribute("nsw",o->hasNoSignedWrap()); j.attribute("nuw",o->hasNoUnsignedWrap()); }
            j.attributeBegin("ops");
            j.array([&] { for(auto &o : i.operands()) operand(o.get()); });
            j.attributeEnd();
        });
    }

    static bool skip(const Instruction &i) {
        if(isa<DbgInfoIntrinsic>(i)) return true;
        if(auto ii = dyn_cast<IntrinsicInst>(&i)) {
            switch(ii->getIntrinsicID()) {
            case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
            case Intrinsic::experimental_noalias_scope_decl:
                return true;
            default: break;
            }
        }
        return false;
    }

    void function(const Function &f) {
        ids.clear(); bbs.clear();
        int n=0, b=0;
        for(auto &bb : f) { bbs[&bb] = b++; for(auto &i : bb) ids[&i] = n++; }
        j.object([&] {
            j.attribute("name",f.getName());
            j.attribute("simple",simplified(f.getName()));
            j.attribute("demangled",demangle(f.getName().str()));
            j.attribute("ret",ty(f.getReturnType()));
            if(auto sp = f.getSubprogram()) { j.attribute("file",sp->getFilename()); j.attribute("line",(int64_t)sp->getLine()); }
            j.attributeBegin("args");
            j.array([&] { for(auto &a : f.args()) j.object([&] {
                j.attribute("ty",ty(a.getType()));
                if(a.hasStructRetAttr()) j.attribute("sret",true);
                if(a.hasByValAttr()) j.attribute("byval",true);
            }); });
            j.attributeEnd();
            j.attributeBegin("blocks");
            j.array([&] { for(auto &bb : f) j.array([&] { for(auto &i : bb) if(!skip(i)) instr(i); }); });
            j.attributeEnd();
        });
    }

    void shape(const Function &f) {
        auto sp = f.getSubprogram();
        if(!sp || sp->getFilename().find("include/poly_ops") == StringRef::npos) return;
        j.object([&] {
            j.attribute("name",f.getName()); j.attribute("simple",simplified(f.getName()));
            j.attribute("file",sp->getFilename()); j.attribute("line",(int64_t)sp->getLine());
            j.attributeBegin("shape");
            j.array([&] {
                for(auto &bb : f) for(auto &i : bb) {
                    if(skip(i)) continue;
                    std::string s = i.getOpcodeName();
                    if(auto st = dyn_cast<StoreInst>(&i)) s += isa<Constant>(st->getValueOperand()) ? " const" : " var";
                    else if(auto c = dyn_cast<CallBase>(&i)) {
                        auto fn = dyn_cast<Function>(c->getCalledOperand()->stripPointerCastsAndAliases());
                        s += " "+(fn ? simplified(fn->getName()) : std::string("?"));
                    } else if(auto c = dyn_cast<CmpInst>(&i)) s += (" "+CmpInst::getPredicateName(c->getPredicate())).str();
                    for(auto &o : i.operands()) if(auto k = dyn_cast<ConstantInt>(o)) { if(!isa<GetElementPtrInst>(i) && k->getBitWidth() <= 64) s += " "+std::to_string(k->getSExtValue()); }
                    if(auto g = dyn_cast<GetElementPtrInst>(&i)) if(auto st = dyn_cast<StructType>(g->getSourceElementType()); st && st->hasName()) {
                        s += " "+st->getName().str();
                        for(auto &x : g->indices()) if(auto k = dyn_cast<ConstantInt>(x)) s += " "+std::to_string(k->getSExtValue());
                    }
                    if(auto d = i.getDebugLoc().get()) s += " @"+std::to_string(d->getLine());
                    j.value(s);
                }
            });
            j.attributeEnd();
        });
    }

    // where an exception thrown by a call ends up: in a handler, in the caller
    // or at the end of the process
    static std::string lands(const InvokeInst *inv) {
        std::set<const BasicBlock*> seen; std::vector<const BasicBlock*> work{inv->getUnwindDest()};
        bool c = false, t = false, r = false;
        while(!work.empty()) {
            auto b = work.back(); work.pop_back();
            if(!seen.insert(b).second) continue;
            bool stop = false;
            for(auto &i : *b) {
                if(auto k = dyn_cast<CallBase>(&i)) if(auto fn = dyn_cast<Function>(k->getCalledOperand()->stripPointerCastsAndAliases())) {
                    if(fn->getName() == "__cxa_begin_catch") { c = stop = true; break; }
                    if(fn->getName() == "__clang_call_terminate" || fn->getName() == "_ZSt9terminatev") { t = stop = true; break; }
                }
                if(isa<ResumeInst>(&i)) r = true;
            }
            if(stop) continue;
            if(auto v = dyn_cast<InvokeInst>(b->getTerminator())) work.push_back(v->getNormalDest());
            else for(auto s : successors(b)) work.push_back(s);
        }
        return std::string(c ? "catch " : "")+(t ? "terminate " : "")+(r ? "resume" : "");
    }
    // blocks that are only run while an exception is on its way
    static std::set<const BasicBlock*> eh_only(const Function &f) {
        std::set<const BasicBlock*> normal, r; std::vector<const BasicBlock*> work;
        if(f.isDeclaration()) return r;
        work.push_back(&f.getEntryBlock());
        while(!work.empty()) {
            auto b = work.back(); work.pop_back();
            if(!normal.insert(b).second) continue;
            if(auto v = dyn_cast<InvokeInst>(b->getTerminator())) work.push_back(v->getNormalDest());
            else for(auto s : successors(b)) work.push_back(s);
        }
        for(auto &b : f) if(!normal.count(&b)) r.insert(&b);
        // what follows a handler is not
        for(auto &b : f) if(r.count(&b)) for(auto &i : b) if(auto k = dyn_cast<CallBase>(&i)) if(auto fn = dyn_cast<Function>(k->getCalledOperand()->stripPointerCastsAndAliases())) if(fn->getName() == "__cxa_begin_catch") {
            std::vector<const BasicBlock*> w{&b}; std::set<const BasicBlock*> h;
            while(!w.empty()) {
                auto x = w.back(); w.pop_back();
                if(!h.insert(x).second) continue;
                r.erase(x);
                if(auto v = dyn_cast<InvokeInst>(x->getTerminator())) w.push_back(v->getNormalDest());
                else for(auto s : successors(x)) w.push_back(s);
            }
        }
        return r;
    }

    // tests of the number of exceptions on their way that decide whether a block is run
    struct Guard { std::string pred; bool side; std::string with; };
    static std::vector<Guard> guards(DominatorTree &dt,const BasicBlock *b) {
        std::vector<Guard> r;
        for(auto n = dt.getNode(b); n && n->getIDom(); n = n->getIDom()) {
            auto x = n->getBlock();
            auto p = x->getSinglePredecessor();
            if(!p) continue;
            auto br = dyn_cast<BranchInst>(p->getTerminator());
            if(!br || !br->isConditional() || br->getSuccessor(0) == br->getSuccessor(1)) continue;
            auto c = dyn_cast<ICmpInst>(br->getCondition());
            if(!c) continue;
            for(int k=0; k<2; ++k) {
                auto call = dyn_cast<CallBase>(c->getOperand(k));
                auto fn = call ? dyn_cast<Function>(call->getCalledOperand()->stripPointerCastsAndAliases()) : nullptr;
                if(!fn || fn->getName() != "_ZSt19uncaught_exceptionsv") continue;
                auto o = c->getOperand(1-k); auto ci = dyn_cast<ConstantInt>(o);
                r.push_back({CmpInst::getPredicateName(k ? c->getSwappedPredicate() : c->getPredicate()).str(),br->getSuccessor(0) == x,ci ? std::to_string(ci->getSExtValue()) : isa<LoadInst>(o) ? "load" : "?"});
            }
        }
        return r;
    }

    void calls(const Function &f) {
        auto unwinding = eh_only(f);
        bool un = false;
        for(auto &bb : f) for(auto &i : bb) if(auto c = dyn_cast<CallBase>(&i)) if(auto fn = dyn_cast<Function>(c->getCalledOperand()->stripPointerCastsAndAliases())) un |= fn->getName() == "_ZSt19uncaught_exceptionsv";
        DominatorTree dt; if(un) dt.recalculate(const_cast<Function&>(f));
        j.object([&] {
            j.attribute("name",f.getName());
            j.attribute("simple",simplified(f.getName()));
            j.attribute("demangled",demangle(f.getName().str()));
            if(auto sp = f.getSubprogram()) { j.attribute("artificial",sp->isArtificial() || (sp->getDeclaration() && sp->getDeclaration()->isArtificial())); j.attribute("file",sp->getFilename()); j.attribute("line",(int64_t)sp->getLine()); }
            j.attribute("linkage",(int64_t)f.getLinkage());
            j.attribute("nounwind",f.doesNotThrow());
            j.attributeBegin("calls");
            j.array([&] {
                for(auto &bb : f) for(auto &i : bb) {
                    if(skip(i)) continue;
                    if(auto c = dyn_cast<CallBase>(&i)) {
                        j.object([&] {
                            auto *callee = c->getCalledOperand()->stripPointerCastsAndAliases();
                            if(auto fn = dyn_cast<Function>(callee)) {
                                j.attribute("fn",fn->getName());
                                j.attribute("simple",simplified(fn->getName()));
                                j.attribute("decl",fn->isDeclaration());
                            } else j.attribute("indirect",true);
                            j.attribute("nounwind",c->doesNotThrow());
                            j.attribute("invoke",isa<InvokeInst>(c));
                            if(auto inv = dyn_cast<InvokeInst>(c)) j.attribute("lands",lands(inv));
                            if(unwinding.count(&bb)) j.attribute("unwinding",true);
                            if(un) {
                                j.attributeBegin("guards");
                                j.array([&] { for(auto &g : guards(dt,&bb)) j.object([&] { j.attribute("pred",g.pred); j.attribute("side",g.side); j.attribute("with",g.with); }); });
                                j.attributeEnd();
                            }
                            loc(i);
                        });
                    }
                }
            });
            j.attributeEnd();
            j.attributeBegin("ops");
            j.array([&] {
                for(auto &bb : f) for(auto &i : bb) {
                    if(skip(i)) continue;
                    const char *k = nullptr;
                    if(i.getOpcode() == Instruction::Mul) k = "mul";
                    else if(auto c = dyn_cast<ICmpInst>(&i)) { if(c->getOperand(0)->getType()->isPointerTy() && c->isRelational()) k = "ptrcmp"; }
                    else if(isa<PtrToIntInst>(&i)) {
                        k = "ptrdiff";
                        for(auto *us : i.users()) {
                            auto *b = dyn_cast<BinaryOperator>(us);
                            if(!b || b->getOpcode() != Instruction::Sub || !isa<PtrToIntInst>(b->getOperand(0)) || !isa<PtrToIntInst>(b->getOperand(1))) k = "ptrtoint";
                        }
                    }
                    else if(isa<LoadInst>(&i) && cast<LoadInst>(&i)->isVolatile()) k = "volatile";
                    else if(i.getOpcode() == Instruction::FMul) k = "fmul";
                    else if(isa<FCmpInst>(&i)) k = "fcmp";
                    else if(isa<TruncInst>(&i) && i.getType()->getIntegerBitWidth() >= 8) k = "trunc";
                    else if(isa<SIToFPInst>(&i)) k = "sitofp";
                    if(!k) continue;
                    j.object([&] { j.attribute("op",k); if(i.getType()->isIntegerTy()) j.attribute("w",(int64_t)i.getType()->getIntegerBitWidth());
                        j.attribute("const",isa<ConstantInt>(i.getOperand(0)) || (i.getNumOperands() > 1 && isa<ConstantInt>(i.getOperand(1)))); loc(i); });
                }
            });
            j.attributeEnd();
            j.attributeBegin("globals");
            j.array([&] {
                for(auto &bb : f) for(auto &i : bb) {
                    if(skip(i)) continue;
                    std::vector<const Value*> work(i.op_begin(),i.op_end());
                    std::set<const Value*> seen;
                    while(!work.empty()) {
                        auto v = work.back(); work.pop_back();
                        if(!seen.insert(v).second) continue;
                        if(auto g = dyn_cast<GlobalVariable>(v)) {
                            globals.insert(g);
                            j.object([&] { j.attribute("g",g->getName()); j.attribute("op",i.getOpcodeName());
                                j.attribute("store",isa<StoreInst>(i) && cast<StoreInst>(i).getPointerOperand()->stripInBoundsOffsets() == g); loc(i); });
                        } else if(auto fn = dyn_cast<Function>(v)) {
                            if(!(isa<CallBase>(i) && cast<CallBase>(i).getCalledOperand() == fn))
                                j.object([&] { j.attribute("fnref",fn->getName()); loc(i); });
                        } else if(auto c = dyn_cast<Constant>(v)) for(auto &o : c->operands()) work.push_back(o.get());
                    }
                }
            });
            j.attributeEnd();
        });
    }
};

int main(int argc,char **argv) {
    if(argc != 4) { errs() << "usage: irx IN.bc CONFIG OUT.json\n"; return 2; }
    LLVMContext ctx;
    SMDiagnostic err;
    auto m = parseIRFile(argv[1],err,ctx);
    if(!m) { err.print("irx",errs()); return 2; }

    std::vector<Regex> opaque, roots;
    bool unroll=false, thread=false, noinline_=false, calls=false, asserts=false, shape=false;
    std::ifstream cfg(argv[2]);
    std::string line;
    while(std::getline(cfg,line)) {
        if(line.compare(0,7,"opaque ") == 0) opaque.emplace_back(line.substr(7));
        else if(line.compare(0,5,"root ") == 0) roots.emplace_back(line.substr(5));
        else if(line == "unroll") unroll = true;
        else if(line == "thread") thread = true;
        else if(line == "noinline") noinline_ = true;
        else if(line == "calls") calls = true;
        else if(line == "shape") calls = shape = true;
        else if(line == "asserts") asserts = true;
    }
    auto matches = [](std::vector<Regex> &rs,const Function &f) {
        std::string s = simplified(f.getName());
        for(auto &r : rs) if(r.match(s) || r.match(f.getName())) return true;
        return false;
    };

    std::set<std::string> rootset;
    for(auto &f : *m) {
        if(matches(roots,f) && !f.isDeclaration()) { rootset.insert(f.getName().str()); f.setLinkage(GlobalValue::ExternalLinkage); f.setComdat(nullptr); }
    }

    std::map<std::string,std::vector<std::string>> conds;
    if(asserts) {
        for(auto &a : make_early_inc_range(m->aliases())) { a.replaceAllUsesWith(a.getAliasee()); a.eraseFromParent(); }
        std::set<Function*> lam;
        for(auto &f : *m) {
            if(f.isDeclaration()) continue;
            if(f.getName().find("verif_assert_cond") == StringRef::npos) continue;
            for(auto &bb : f) for(auto &i : bb) if(auto c = dyn_cast<CallBase>(&i)) if(auto fn = c->getCalledFunction(); fn && !fn->isDeclaration()) lam.insert(fn);
        }
        for(auto &f : *m) {
            f.removeFnAttr(Attribute::OptimizeNone);
            if(f.isDeclaration()) continue;
            f.setComdat(nullptr); f.setLinkage(GlobalValue::InternalLinkage);
            f.removeFnAttr(Attribute::NoInline); f.removeFnAttr(Attribute::AlwaysInline);
            if(lam.count(&f) || f.getName().find("verif_assert_cond") != StringRef::npos) f.addFnAttr(Attribute::NoInline);
            else f.addFnAttr(Attribute::AlwaysInline);
        }
        for(auto l : lam) rootset.insert(l->getName().str());
        /* conditions evaluated inside conditions are looked at on their own */
        for(auto &f : *m) for(auto &bb : f) for(auto &i : make_early_inc_range(bb)) if(auto c = dyn_cast<CallInst>(&i)) if(auto fn = c->getCalledFunction(); fn && fn->getName().find("verif_assert_cond") != StringRef::npos) c->eraseFromParent();
        /* only what the conditions need: everything else becomes a declaration */
        std::set<Function*> keep(lam.begin(),lam.end()); std::vector<Function*> work(lam.begin(),lam.end());
        while(!work.empty()) {
            auto f = work.back(); work.pop_back();
            for(auto &bb : *f) for(auto &i : bb) for(auto &o : i.operands()) if(auto fn = dyn_cast<Function>(o); fn && !fn->isDeclaration() && keep.insert(fn).second) work.push_back(fn);
        }
        for(auto &f : *m) if(!f.isDeclaration() && !keep.count(&f)) { f.deleteBody(); }
        for(auto l : lam) l->setLinkage(GlobalValue::ExternalLinkage);
        if(verifyModule(*m,&errs())) { errs() << "broken module\n"; return 2; }
        LoopAnalysisManager lam_; FunctionAnalysisManager fam; CGSCCAnalysisManager cgam; ModuleAnalysisManager mam;
        PassBuilder pb;
        pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cgam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam_);
        pb.crossRegisterProxies(lam_,fam,cgam,mam);
        auto mpm = pb.buildPerModuleDefaultPipeline(OptimizationLevel::O2);
        mpm.run(*m,mam);
        std::error_code ec;
        raw_fd_ostream os(argv[3],ec);
        json::OStream j(os);
        j.array([&] {
            for(auto &f : *m) {
                if(f.isDeclaration() || !rootset.count(f.getName().str())) continue;
                j.object([&] {
                    j.attribute("name",f.getName()); j.attribute("demangled",demangle(f.getName().str()));
                    if(auto sp = f.getSubprogram()) { j.attribute("file",sp->getFilename()); j.attribute("line",(int64_t)sp->getLine()); if(auto s = sp->getScope()) j.attribute("in",s->getName()); }
                    j.attribute("readonly",f.onlyReadsMemory());
                    j.attributeBegin("writes");
                    j.array([&] {
                        for(auto &bb : f) for(auto &i : bb) {
                            if(!i.mayWriteToMemory()) continue;
                            const Value *p = nullptr; const Function *fn = nullptr;
                            if(auto st = dyn_cast<StoreInst>(&i)) p = st->getPointerOperand();
                            else if(auto c = dyn_cast<CallBase>(&i)) {
                                fn = c->getCalledFunction();
                                if(fn && fn->isIntrinsic() && (fn->getName().starts_with("llvm.lifetime") || fn->getName().starts_with("llvm.assume") || fn->getName().starts_with("llvm.experimental.noalias"))) continue;
                                if(fn && fn->getName() == "verif_assert_fail") continue;
                                if(isa<MemIntrinsic>(c)) p = cast<MemIntrinsic>(c)->getDest();
                                else if(c->onlyReadsMemory()) continue;
                            }
                            std::string kind = isa<CallBase>(i) && !p ? "call" : "unknown";
                            if(p) {
                                /* chase to the object written */
                                std::set<const Value*> seen; std::vector<const Value*> w{p}; bool loc=true, arg=false, glob=false, ind=false, fresh=false;
                                while(!w.empty()) {
                                    auto v = w.back()->stripInBoundsOffsets(); w.pop_back();
                                    while(auto g = dyn_cast<GEPOperator>(v)) v = g->getPointerOperand()->stripInBoundsOffsets();
                                    if(!seen.insert(v).second) continue;
                                    if(isa<AllocaInst>(v)) continue;
                                    if(auto ph = dyn_cast<PHINode>(v)) { for(auto &x : ph->incoming_values()) w.push_back(x); continue; }
                                    if(auto se = dyn_cast<SelectInst>(v)) { w.push_back(se->getTrueValue()); w.push_back(se->getFalseValue()); continue; }
                                    loc = false;
                                    if(isa<Argument>(v)) arg = true;
                                    else if(isa<GlobalVariable>(v)) glob = true;
                                    else if(auto ld = dyn_cast<LoadInst>(v)) {
                                        auto q = ld->getPointerOperand()->stripInBoundsOffsets();
                                        while(auto g = dyn_cast<GEPOperator>(q)) q = g->getPointerOperand()->stripInBoundsOffsets();
                                        /* loaded from the closure, or from something reached from it */
                                        for(int k=0; k<8; ++k) {
                                            if(isa<Argument>(q)) { arg = true; break; }
                                            auto l2 = dyn_cast<LoadInst>(q);
                                            if(!l2) break;
                                            q = l2->getPointerOperand()->stripInBoundsOffsets();
                                            while(auto g = dyn_cast<GEPOperator>(q)) q = g->getPointerOperand()->stripInBoundsOffsets();
                                        }
                                        ind = !arg;
                                    } else if(auto cb = dyn_cast<CallBase>(v)) { fresh = true; if(!fn) fn = cb->getCalledFunction(); }
                                    else ind = true;
                                }
                                if(fresh) kind = "result"; else kind = loc ? "local" : glob ? "global" : arg && !ind ? "captured" : "unknown";
                            }
                            if(kind == "local") continue;
                            j.object([&] { j.attribute("kind",kind); j.attribute("op",i.getOpcodeName()); if(fn) { j.attribute("fn",fn->getName()); j.attribute("simple",simplified(fn->getName())); }
                                if(auto d = i.getDebugLoc().get()) { j.attribute("file",d->getFilename()); j.attribute("line",(int64_t)d->getLine()); } });
                        }
                    });
                    j.attributeEnd();
                });
            }
        });
        return 0;
    }
    if(!calls) {
        /* what the roots don't reach isn't looked at */
        for(auto &x : make_early_inc_range(m->aliases())) { x.replaceAllUsesWith(x.getAliasee()); x.eraseFromParent(); }
        std::set<Constant*> live; std::vector<Constant*> todo;
        for(auto &f : *m) if(!f.isDeclaration() && rootset.count(f.getName().str())) { live.insert(&f); todo.push_back(&f); }
        while(!todo.empty()) {
            auto x = todo.back(); todo.pop_back();
            auto see = [&](Value *v) { if(auto k = dyn_cast<Constant>(v); k && !isa<ConstantData>(k) && live.insert(k).second) todo.push_back(k); };
            if(auto f = dyn_cast<Function>(x)) {
                for(auto &o : f->operands()) see(o);
                for(auto &bb : *f) for(auto &i : bb) for(auto &o : i.operands()) see(o);
            } else for(auto &o : x->operands()) see(o);
        }
        for(auto &f : *m) if(!f.isDeclaration() && !live.count(&f)) { f.deleteBody(); f.setComdat(nullptr); }
        for(auto &f : *m) {
            f.removeFnAttr(Attribute::OptimizeNone);
            f.removeFnAttr(Attribute::NoInline);
            f.removeFnAttr(Attribute::AlwaysInline);
            if(f.isDeclaration()) continue;
            if(noinline_ || matches(opaque,f)) f.addFnAttr(Attribute::NoInline);
            else { f.addFnAttr(Attribute::AlwaysInline); }
        }
        LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cgam; ModuleAnalysisManager mam;
        PassBuilder pb;
        pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cgam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam);
        pb.crossRegisterProxies(lam,fam,cgam,mam);
        ModulePassManager mpm;
        if(unroll) {
            /* !(a == b) -> a != b, so that trip counts are recognised */
            ModulePassManager pre;
            if(auto e = pb.parsePassPipeline(pre,"always-inline,function(sroa<modify-cfg>,early-cse,simplifycfg)")) { errs() << toString(std::move(e)) << "\n"; return 2; }
            pre.run(*m,mam);
            for(auto &f : *m) for(auto &bb : f) for(auto &i : make_early_inc_range(bb)) {
                auto *b = dyn_cast<BinaryOperator>(&i);
                if(!b || b->getOpcode() != Instruction::Xor || !b->getType()->isIntegerTy(1)) continue;
                auto *c = dyn_cast<ConstantInt>(b->getOperand(1));
                auto *ic = dyn_cast<ICmpInst>(b->getOperand(0));
                if(!c || !c->isOne() || !ic) continue;
                auto *n = CmpInst::Create(Instruction::ICmp,ic->getInversePredicate(),ic->getOperand(0),ic->getOperand(1),"",b);
                n->setDebugLoc(b->getDebugLoc());
                b->replaceAllUsesWith(n);
                b->eraseFromParent();
            }
            mam.clear(); fam.clear(); lam.clear(); cgam.clear();
        }
        if(auto e = pb.parsePassPipeline(mpm,unroll ?
            std::string("always-inline,function(sroa<modify-cfg>,early-cse,simplifycfg,loop-simplify,lcssa,loop(loop-rotate,indvars,loop-unroll-full),sroa<modify-cfg>,early-cse<memssa>,sccp,simplifycfg,adce,simplifycfg)")
            : thread ? /* branches on what was just decided (where to go after a cleanup) become edges */
            std::string("always-inline,function(sroa<modify-cfg>,early-cse,simplifycfg,sroa<modify-cfg>,early-cse<memssa>,jump-threading,adce,simplifycfg)")
            : std::string("always-inline,function(sroa<modify-cfg>,early-cse,simplifycfg,sroa<modify-cfg>,early-cse<memssa>,adce,simplifycfg)"))) {
            errs() << "irx: " << toString(std::move(e)) << "\n"; return 2;
        }
        mpm.run(*m,mam);
    }

    if(getenv("IRX_DUMP")) m->print(errs(),nullptr);
    std::error_code ec;
    raw_fd_ostream os(argv[3],ec);
    if(ec) { errs() << ec.message() << "\n"; return 2; }
    Out o(os,m->getDataLayout());
    o.j.object([&] {
        o.j.attributeBegin("functions");
        o.j.array([&] {
            for(auto &f : *m) {
                if(f.isDeclaration()) continue;
                if(shape) o.shape(f);
                else if(calls) o.calls(f);
                else if(rootset.count(f.getName().str())) o.function(f);
            }
        });
        o.j.attributeEnd();
        o.j.attributeBegin("globals");
        o.j.array([&] {
            for(auto &g : m->globals()) {
                o.j.object([&] {
                    o.j.attribute("name",g.getName());
                    o.j.attribute("demangled",demangle(g.getName().str()));
                    o.j.attribute("const",g.isConstant());
                    o.j.attribute("decl",g.isDeclaration());
                    o.j.attribute("tls",g.isThreadLocal());
                    o.j.attribute("linkage",(int64_t)g.getLinkage());
                    if(g.hasInitializer()) { o.j.attributeBegin("init"); o.operand(g.getInitializer()); o.j.attributeEnd(); }
                    SmallVector<DIGlobalVariableExpression*,1> gvs;
                    g.getDebugInfo(gvs);
                    for(auto *e : gvs) { o.j.attribute("file",e->getVariable()->getFilename()); o.j.attribute("line",(int64_t)e->getVariable()->getLine());
                        auto t = e->getVariable()->getType();
                        while(t) {
                            auto d = dyn_cast<DIDerivedType>(t);
                            if(t->getTag() == dwarf::DW_TAG_const_type) { o.j.attribute("consttype",true); break; }
                            if(auto a = dyn_cast<DICompositeType>(t); a && t->getTag() == dwarf::DW_TAG_array_type) { t = a->getBaseType(); continue; }
                            if(d && t->getTag() == dwarf::DW_TAG_typedef) { t = d->getBaseType(); continue; }
                            break;
                        }
                        break; }
                });
            }
        });
        o.j.attributeEnd();
        o.j.attributeBegin("types");
        o.j.array([&] {
            DebugInfoFinder fi;
            fi.processModule(*m);
            for(auto *t : fi.types()) {
                auto c = dyn_cast<DICompositeType>(t);
                if(!c || c->isForwardDecl()) continue;
                if(c->getTag() == llvm::dwarf::DW_TAG_enumeration_type) {
                    o.j.object([&] {
                        o.j.attribute("enum",c->getName());
                        o.j.attributeBegin("values");
                        o.j.array([&] { for(auto *e : c->getElements()) if(auto en = dyn_cast<DIEnumerator>(e))
                            o.j.array([&] { o.j.value(en->getName()); o.j.value(en->getValue().getSExtValue()); }); });
                        o.j.attributeEnd();
                    });
                    continue;
                }
                if(c->getTag() != llvm::dwarf::DW_TAG_structure_type && c->getTag() != llvm::dwarf::DW_TAG_class_type && c->getTag() != llvm::dwarf::DW_TAG_union_type) continue;
                o.j.object([&] {
                    o.j.attribute("struct",c->getName());
                    std::string scope;
                    for(auto *s = c->getScope(); s; s = s->getScope()) { if(isa<DIFile>(s) || isa<DICompileUnit>(s)) break; scope = s->getName().str() + "::" + scope; }
                    o.j.attribute("scope",scope);
                    o.j.attribute("id",c->getIdentifier());
                    o.j.attribute("size",(int64_t)c->getSizeInBits()/8);
                    o.j.attributeBegin("members");
                    o.j.array([&] {
                        for(auto *e : c->getElements()) if(auto d = dyn_cast<DIDerivedType>(e)) {
                            if(d->isStaticMember()) continue;
                            if(d->getTag() != llvm::dwarf::DW_TAG_member && d->getTag() != llvm::dwarf::DW_TAG_inheritance) continue;
                            DIType *bt = d->getBaseType();
                            int64_t sz = bt ? (int64_t)bt->getSizeInBits()/8 : 0;
                            while(bt && isa<DIDerivedType>(bt) && (bt->getTag() == llvm::dwarf::DW_TAG_typedef || bt->getTag() == llvm::dwarf::DW_TAG_const_type || bt->getTag() == llvm::dwarf::DW_TAG_template_alias)) bt = cast<DIDerivedType>(bt)->getBaseType();
                            std::string btn = bt ? bt->getName().str() : "";
                            o.j.array([&] { o.j.value(d->getName()); o.j.value((int64_t)d->getOffsetInBits()/8); o.j.value(sz); o.j.value(btn);
                                o.j.value(d->getTag() == llvm::dwarf::DW_TAG_inheritance ? "base" : "member"); });
                        }
                    });
                    o.j.attributeEnd();
                });
            }
        });
        o.j.attributeEnd();
    });
    os << "\n";
    return 0;
}
