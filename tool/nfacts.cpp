// nfacts: dump a JSON fact base from LLVM bitcode (after promoting scalar locals to SSA).
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Transforms/Utils/PromoteMemToReg.h"
#include "llvm/ADT/SmallString.h"
#include <map>
#include <set>
#include <string>
#include <functional>
using namespace llvm;

static std::string esc(StringRef s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

struct Dumper {
    Module &M;
    raw_ostream &O;
    const DataLayout &DL;
    std::map<std::string, DICompositeType *> comps; // struct name -> DI
    std::set<std::string> structsDone;
    std::map<const Value *, std::string> ids;
    Dumper(Module &m, raw_ostream &o) : M(m), O(o), DL(m.getDataLayout()) {}

    // ---- DI types
    static DIType *strip(DIType *t) {
        while (t) {
            if (auto *d = dyn_cast<DIDerivedType>(t)) {
                auto tag = d->getTag();
                if (tag == dwarf::DW_TAG_typedef || tag == dwarf::DW_TAG_const_type || tag == dwarf::DW_TAG_volatile_type ||
                    tag == dwarf::DW_TAG_restrict_type || tag == dwarf::DW_TAG_atomic_type || tag == dwarf::DW_TAG_member) {
                    t = d->getBaseType();
                    continue;
                }
            }
            break;
        }
        return t;
    }
    static std::string tstr(DIType *t, int depth = 0) {
        if (!t) return "void";
        if (depth > 6) return "?";
        if (auto *d = dyn_cast<DIDerivedType>(t)) {
            switch (d->getTag()) {
                case dwarf::DW_TAG_pointer_type: return tstr(d->getBaseType(), depth + 1) + "*";
                case dwarf::DW_TAG_typedef: return d->getName().str();
                default: return tstr(d->getBaseType(), depth + 1);
            }
        }
        if (auto *c = dyn_cast<DICompositeType>(t)) {
            if (c->getTag() == dwarf::DW_TAG_array_type) {
                int64_t n = -1;
                for (auto *e : c->getElements())
                    if (auto *sr = dyn_cast<DISubrange>(e))
                        if (auto *ci = dyn_cast_if_present<ConstantInt *>(sr->getCount())) n = ci->getSExtValue();
                return tstr(c->getBaseType(), depth + 1) + "[" + std::to_string(n) + "]";
            }
            std::string n = c->getName().str();
            if (n.empty()) n = "<anon>";
            return n;
        }
        if (auto *b = dyn_cast<DIBasicType>(t)) return b->getName().str();
        if (isa<DISubroutineType>(t)) return "fn";
        return "?";
    }
    static std::string tkind(DIType *t) {
        DIType *s = strip(t);
        if (!s) return "void";
        if (auto *d = dyn_cast<DIDerivedType>(s)) {
            if (d->getTag() == dwarf::DW_TAG_pointer_type) return "ptr";
            return "?";
        }
        if (auto *c = dyn_cast<DICompositeType>(s)) {
            std::string sz = std::to_string(c->getSizeInBits() / 8);
            if (c->getTag() == dwarf::DW_TAG_enumeration_type) return "u" + sz;
            if (c->getTag() == dwarf::DW_TAG_array_type) return "arr" + sz;
            if (c->getTag() == dwarf::DW_TAG_union_type) return "union" + sz;
            return "struct" + sz;
        }
        if (auto *b = dyn_cast<DIBasicType>(s)) {
            std::string sz = std::to_string(b->getSizeInBits() / 8);
            switch (b->getEncoding()) {
                case dwarf::DW_ATE_boolean: return "bool" + sz;
                case dwarf::DW_ATE_float: return "f" + sz;
                case dwarf::DW_ATE_signed: case dwarf::DW_ATE_signed_char: return "i" + sz;
                default: return "u" + sz;
            }
        }
        if (isa<DISubroutineType>(s)) return "fn";
        return "?";
    }

    static std::string fieldAt(DICompositeType *c, uint64_t bitoff, DIType **ft = nullptr) {
        if (!c) return "";
        std::string best;
        for (auto *e : c->getElements()) {
            auto *m = dyn_cast<DIDerivedType>(e);
            if (!m || m->getTag() != dwarf::DW_TAG_member) continue;
            if (m->getOffsetInBits() == bitoff) {
                if (ft) *ft = m->getBaseType();
                std::string n = m->getName().str();
                if (n.empty()) n = "<anon>";
                return n;
            }
        }
        return best;
    }

    std::string sname(Type *t) {
        if (auto *s = dyn_cast<StructType>(t)) {
            if (!s->hasName()) return "{}";
            StringRef n = s->getName();
            if (n.starts_with("struct.")) n = n.substr(7);
            else if (n.starts_with("union.")) n = n.substr(6);
            // strip trailing .NNN uniquing
            size_t p = n.rfind('.');
            if (p != StringRef::npos && p + 1 < n.size() && n.substr(p + 1).find_first_not_of("0123456789") == StringRef::npos && n != "anon")
                n = n.substr(0, p);
            return n.str();
        }
        return "";
    }
    std::string ty(Type *t) {
        if (t->isVoidTy()) return "void";
        if (t->isPointerTy()) return "ptr";
        if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
        if (t->isFloatTy()) return "f32";
        if (t->isDoubleTy()) return "f64";
        if (auto *s = dyn_cast<StructType>(t)) return "%" + sname(t);
        if (auto *a = dyn_cast<ArrayType>(t)) return "[" + std::to_string(a->getNumElements()) + "x" + ty(a->getElementType()) + "]";
        std::string r; raw_string_ostream os(r); t->print(os); return os.str();
    }

    std::string gepSteps(GEPOperator *g) {
        std::string r = "[";
        bool first = true;
        DICompositeType *dic = nullptr;
        bool firstIdx = true;
        Type *cur = g->getSourceElementType();
        for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
            Value *idx = gi.getOperand();
            if (!first) r += ",";
            if (StructType *st = gi.getStructTypeOrNull()) {
                unsigned i = cast<ConstantInt>(idx)->getZExtValue();
                std::string n = sname(st);
                uint64_t off = DL.getStructLayout(st)->getElementOffsetInBits(i);
                std::string fn;
                auto it = comps.find(n);
                if (it != comps.end()) fn = fieldAt(it->second, off);
                if (fn.empty()) fn = "#" + std::to_string(i);
                r += "[\"f\"," + esc(n) + "," + esc(fn) + "," + std::to_string(off / 8) + "]";
                first = false;
            } else {
                Type *et = gi.getIndexedType();
                bool zero = isa<ConstantInt>(idx) && cast<ConstantInt>(idx)->isZero();
                if (firstIdx && zero) { firstIdx = false; if (!first) r.pop_back(); continue; }
                r += "[\"i\"," + val(idx) + "," + std::to_string((uint64_t) DL.getTypeAllocSize(et)) + "]";
                first = false;
            }
            firstIdx = false;
        }
        (void) cur; (void) dic;
        return r + "]";
    }

    std::string val(const Value *v) {
        if (auto *c = dyn_cast<Constant>(v)) {
            if (auto *ci = dyn_cast<ConstantInt>(c)) {
                if (ci->getBitWidth() <= 64) return "[\"c\"," + std::to_string(ci->getSExtValue()) + "," + std::to_string(ci->getBitWidth()) + "]";
                return "\"bigint\"";
            }
            if (isa<ConstantPointerNull>(c)) return "[\"c\",0,64]";
            if (auto *cf = dyn_cast<ConstantFP>(c)) {
                SmallString<32> s; cf->getValueAPF().toString(s);
                return "[\"cf\"," + esc(s) + "]";
            }
            if (auto *gv = dyn_cast<GlobalValue>(c)) {
                if (auto *g = dyn_cast<GlobalVariable>(gv)) {
                    if (g->hasPrivateLinkage() && g->hasInitializer())
                        if (auto *cd = dyn_cast<ConstantDataSequential>(g->getInitializer()))
                            if (cd->isString()) { StringRef s = cd->getAsString(); if (!s.empty() && s.back() == 0) s = s.drop_back(); return "[\"s\"," + esc(s) + "]"; }
                    if (g->hasPrivateLinkage() && g->hasInitializer() && isa<ConstantAggregateZero>(g->getInitializer())) return "[\"s\",\"\"]";
                }
                return esc(("@" + gv->getName()).str());
            }
            if (auto *ce = dyn_cast<ConstantExpr>(c)) {
                if (auto *g = dyn_cast<GEPOperator>(ce)) return "[\"gep\"," + val(g->getPointerOperand()) + "," + gepSteps(const_cast<GEPOperator *>(g)) + "]";
                std::string r = "[\"ce\"," + esc(ce->getOpcodeName());
                for (auto &o : ce->operands()) r += "," + val(o.get());
                return r + "]";
            }
            if (isa<UndefValue>(c)) return "\"undef\"";
            if (isa<ConstantAggregateZero>(c)) return "\"zeroinit\"";
            return "\"const?\"";
        }
        if (auto *mv = dyn_cast<MetadataAsValue>(v)) return "\"md\"";
        auto it = ids.find(v);
        if (it != ids.end()) return esc(it->second);
        return "\"?\"";
    }

    std::string init(const Constant *c, int depth = 0) {
        if (depth > 8) return "null";
        if (isa<ConstantAggregateZero>(c)) {
            if (auto *at = dyn_cast<ArrayType>(c->getType())) return "[\"zero\"," + std::to_string(at->getNumElements()) + "]";
            return "[\"zero\",1]";
        }
        if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
            if (cd->isString()) { StringRef s = cd->getAsString(); return "[\"str\"," + esc(s) + "]"; }
            std::string r = "[\"arr\"";
            for (unsigned i = 0; i < cd->getNumElements(); i++) r += "," + val(cd->getElementAsConstant(i));
            return r + "]";
        }
        if (auto *ca = dyn_cast<ConstantArray>(c)) {
            std::string r = "[\"arr\"";
            for (auto &o : ca->operands()) r += "," + init(cast<Constant>(o.get()), depth + 1);
            return r + "]";
        }
        if (auto *cs = dyn_cast<ConstantStruct>(c)) {
            std::string n = sname(cs->getType());
            std::string r = "[\"st\"," + esc(n);
            unsigned i = 0;
            for (auto &o : cs->operands()) {
                uint64_t off = DL.getStructLayout(cs->getType())->getElementOffsetInBits(i);
                std::string fn; auto it = comps.find(n);
                if (it != comps.end()) fn = fieldAt(it->second, off);
                if (fn.empty()) fn = "#" + std::to_string(i);
                r += ",[" + esc(fn) + "," + init(cast<Constant>(o.get()), depth + 1) + "]";
                i++;
            }
            return r + "]";
        }
        return val(c);
    }

    void run() {
        // promote scalars
        for (Function &F : M) {
            if (F.isDeclaration()) continue;
            DominatorTree DT(F);
            BasicBlock &E = F.getEntryBlock();
            while (true) {
                std::vector<AllocaInst *> as;
                for (auto &I : E) if (auto *a = dyn_cast<AllocaInst>(&I)) if (isAllocaPromotable(a)) as.push_back(a);
                if (as.empty()) break;
                PromoteMemToReg(as, DT);
            }
        }
        DebugInfoFinder DF; DF.processModule(M);
        std::vector<DICompositeType *> all;
        std::map<std::string, std::string> tdefs;
        for (auto *t : DF.types()) {
            if (auto *c = dyn_cast<DICompositeType>(t)) {
                if (!c->getName().empty() && !c->isForwardDecl() && c->getTag() != dwarf::DW_TAG_enumeration_type) comps[c->getName().str()] = c;
            }
        }
        for (auto *t : DF.types())
            if (auto *d = dyn_cast<DIDerivedType>(t))
                if (d->getTag() == dwarf::DW_TAG_typedef) {
                    if (auto *c = dyn_cast_or_null<DICompositeType>(d->getBaseType()))
                        if (c->getName().empty() && c->getTag() != dwarf::DW_TAG_enumeration_type) comps[d->getName().str()] = c;
                    tdefs[d->getName().str()] = tstr(d->getBaseType());
                }
        O << "{\"tu\":" << esc(M.getSourceFileName()) << ",\n\"structs\":{";
        bool f = true;
        for (auto &kv : comps) {
            auto *c = kv.second;
            if (!f) O << ",\n"; f = false;
            O << esc(kv.first) << ":{\"size\":" << c->getSizeInBits() / 8 << ",\"union\":" << (c->getTag() == dwarf::DW_TAG_union_type ? 1 : 0)
              << ",\"file\":" << esc(c->getFilename()) << ",\"line\":" << c->getLine() << ",\"m\":[";
            bool g = true;
            for (auto *e : c->getElements()) {
                auto *m = dyn_cast<DIDerivedType>(e);
                if (!m || m->getTag() != dwarf::DW_TAG_member) continue;
                if (!g) O << ","; g = false;
                DIType *bt = m->getBaseType();
                uint64_t sz = m->getSizeInBits() / 8;
                O << "[" << esc(m->getName()) << "," << m->getOffsetInBits() / 8 << "," << sz << "," << esc(tstr(bt)) << "," << esc(tkind(bt)) << "]";
            }
            O << "]}";
        }
        O << "},\n\"typedefs\":{"; f = true;
        for (auto &kv : tdefs) { if (!f) O << ","; f = false; O << esc(kv.first) << ":" << esc(kv.second); }
        O << "},\n\"enums\":{"; f = true;
        std::set<std::string> seen;
        std::map<DIType *, std::string> enumTd;
        for (auto *t : DF.types())
            if (auto *d = dyn_cast<DIDerivedType>(t))
                if (d->getTag() == dwarf::DW_TAG_typedef && d->getBaseType()) enumTd[d->getBaseType()] = d->getName().str();
        auto dumpEnum = [&](DICompositeType *c) {
            std::string n = c->getName().str();
            if (n.empty()) n = enumTd.count(c) ? enumTd[c] : "";
            if (n.empty()) n = "<anon:" + c->getFilename().str() + ":" + std::to_string(c->getLine()) + ">";
            if (!seen.insert(n).second) return;
            if (!f) O << ",\n"; f = false;
            O << esc(n) << ":{";
            bool g = true;
            for (auto *e : c->getElements())
                if (auto *en = dyn_cast<DIEnumerator>(e)) {
                    if (!g) O << ","; g = false;
                    O << esc(en->getName()) << ":" << en->getValue().getSExtValue();
                }
            O << "}";
        };
        for (auto *t : DF.types())
            if (auto *c = dyn_cast<DICompositeType>(t))
                if (c->getTag() == dwarf::DW_TAG_enumeration_type) dumpEnum(c);
        for (auto *cu : DF.compile_units())
            for (auto *e : cu->getEnumTypes()) dumpEnum(e);
        O << "},\n\"globals\":["; f = true;
        for (GlobalVariable &G : M.globals()) {
            if (G.hasPrivateLinkage() && !G.getName().starts_with("__const.")) continue;
            if (!f) O << ",\n"; f = false;
            SmallVector<DIGlobalVariableExpression *, 1> ges; G.getDebugInfo(ges);
            O << "{\"n\":" << esc(G.getName()) << ",\"ty\":" << esc(ty(G.getValueType())) << ",\"decl\":" << (G.isDeclaration() ? 1 : 0)
              << ",\"internal\":" << (G.hasLocalLinkage() ? 1 : 0) << ",\"tls\":" << (G.isThreadLocal() ? 1 : 0);
            if (!ges.empty()) { auto *gv = ges[0]->getVariable(); O << ",\"file\":" << esc(gv->getFilename()) << ",\"line\":" << gv->getLine() << ",\"ct\":" << esc(tstr(gv->getType())); }
            if (G.hasInitializer()) O << ",\"init\":" << init(G.getInitializer());
            O << "}";
        }
        O << "],\n\"functions\":["; f = true;
        for (Function &F : M) {
            if (F.isIntrinsic()) continue;
            if (!f) O << ",\n"; f = false;
            DISubprogram *sp = F.getSubprogram();
            O << "{\"n\":" << esc(F.getName()) << ",\"decl\":" << (F.isDeclaration() ? 1 : 0) << ",\"internal\":" << (F.hasLocalLinkage() ? 1 : 0)
              << ",\"va\":" << (F.isVarArg() ? 1 : 0) << ",\"ret\":" << esc(ty(F.getReturnType())) << ",\"noret\":" << (F.doesNotReturn() ? 1 : 0);
            O << ",\"argt\":["; { bool g = true; for (auto &a : F.args()) { if (!g) O << ","; g = false; O << esc(ty(a.getType())); } } O << "]";
            O << ",\"sret\":" << ((F.arg_size() && F.getArg(0)->hasStructRetAttr()) ? 1 : 0);
            if (sp) {
                O << ",\"file\":" << esc(sp->getFilename()) << ",\"line\":" << sp->getLine();
                O << ",\"sig\":[";
                bool g = true;
                if (auto *st = sp->getType()) for (auto *t : st->getTypeArray()) { if (!g) O << ","; g = false; O << "[" << esc(tstr(t)) << "," << esc(tkind(t)) << "]"; }
                O << "]";
            }
            if (!F.isDeclaration()) dumpBody(F);
            O << "}";
        }
        O << "]}\n";
    }

    void dumpBody(Function &F) {
        ids.clear();
        int n = 0;
        std::map<const Value *, std::string> names;
        for (auto &a : F.args()) ids[&a] = "a" + std::to_string(a.getArgNo());
        std::map<const BasicBlock *, int> bb;
        int bn = 0;
        for (auto &B : F) { bb[&B] = bn++; for (auto &I : B) { if (!isa<DbgInfoIntrinsic>(I)) ids[&I] = "%" + std::to_string(n++); } }
        for (auto &B : F) for (auto &I : B) {
            if (auto *d = dyn_cast<DbgVariableIntrinsic>(&I)) {
                Value *v = d->getVariableLocationOp(0);
                if (v && ids.count(v)) { if (!names.count(v)) names[v] = d->getVariable()->getName().str(); }
            }
        }
        O << ",\"names\":{"; bool f = true;
        for (auto &kv : names) { if (!f) O << ","; f = false; O << esc(ids[kv.first]) << ":" << esc(kv.second); }
        O << "},\"argn\":["; f = true;
        for (auto &a : F.args()) { if (!f) O << ","; f = false; O << esc(names.count(&a) ? names[&a] : a.getName().str()); }
        O << "],\n\"blocks\":["; f = true;
        for (auto &B : F) {
            if (!f) O << ",\n"; f = false;
            O << "["; bool g = true;
            for (auto &I : B) {
                if (isa<DbgInfoIntrinsic>(I)) continue;
                if (!g) O << ","; g = false;
                unsigned line = I.getDebugLoc() ? I.getDebugLoc().getLine() : 0;
                O << "[" << esc(ids[&I]) << ",";
                std::string op = I.getOpcodeName(), t = ty(I.getType()), extra = "null";
                std::string ops = "[";
                bool h = true;
                auto add = [&](const std::string &s) { if (!h) ops += ","; h = false; ops += s; };
                if (auto *br = dyn_cast<BranchInst>(&I)) {
                    if (br->isConditional()) { add(val(br->getCondition())); extra = "[" + std::to_string(bb[br->getSuccessor(0)]) + "," + std::to_string(bb[br->getSuccessor(1)]) + "]"; }
                    else extra = "[" + std::to_string(bb[br->getSuccessor(0)]) + "]";
                } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
                    add(val(sw->getCondition()));
                    extra = "[" + std::to_string(bb[sw->getDefaultDest()]);
                    for (auto &c : sw->cases()) extra += ",[" + std::to_string(c.getCaseValue()->getSExtValue()) + "," + std::to_string(bb[c.getCaseSuccessor()]) + "]";
                    extra += "]";
                } else if (auto *ph = dyn_cast<PHINode>(&I)) {
                    for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) add("[" + std::to_string(bb[ph->getIncomingBlock(i)]) + "," + val(ph->getIncomingValue(i)) + "]");
                } else if (auto *ge = dyn_cast<GetElementPtrInst>(&I)) {
                    add(val(ge->getPointerOperand())); extra = gepSteps(cast<GEPOperator>(ge)); op = "gep";
                } else if (auto *cb = dyn_cast<CallBase>(&I)) {
                    for (auto &a : cb->args()) add(val(a.get()));
                    if (auto *ia = dyn_cast<InlineAsm>(cb->getCalledOperand())) extra = "\"asm\"";
                    else extra = val(cb->getCalledOperand());
                } else if (auto *ic = dyn_cast<ICmpInst>(&I)) {
                    for (auto &o : I.operands()) add(val(o.get()));
                    extra = esc(CmpInst::getPredicateName(ic->getPredicate()));
                } else if (auto *fc = dyn_cast<FCmpInst>(&I)) {
                    for (auto &o : I.operands()) add(val(o.get()));
                    extra = esc(CmpInst::getPredicateName(fc->getPredicate()));
                } else if (auto *al = dyn_cast<AllocaInst>(&I)) {
                    t = ty(al->getAllocatedType());
                    extra = std::to_string((uint64_t) DL.getTypeAllocSize(al->getAllocatedType()));
                    if (names.count(al)) add(esc(names[al]));
                } else if (auto *rm = dyn_cast<AtomicRMWInst>(&I)) {
                    for (auto &o : I.operands()) add(val(o.get()));
                    extra = esc(AtomicRMWInst::getOperationName(rm->getOperation()));
                } else if (auto *ld = dyn_cast<LoadInst>(&I)) {
                    add(val(ld->getPointerOperand())); extra = ld->isAtomic() ? "\"atomic\"" : "null";
                } else if (auto *st = dyn_cast<StoreInst>(&I)) {
                    add(val(st->getValueOperand())); add(val(st->getPointerOperand()));
                    t = ty(st->getValueOperand()->getType()); extra = st->isAtomic() ? "\"atomic\"" : "null";
                } else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
                    add(val(ev->getAggregateOperand())); extra = std::to_string(ev->getIndices()[0]);
                } else {
                    for (auto &o : I.operands()) add(val(o.get()));
                }
                ops += "]";
                O << esc(op) << "," << esc(t) << "," << ops << "," << line << "," << extra << "]";
            }
            O << "]";
        }
        O << "]";
    }
};

int main(int argc, char **argv) {
    for (int i = 1; i + 1 < argc; i += 2) {
        LLVMContext C;
        SMDiagnostic E;
        auto M = parseIRFile(argv[i], E, C);
        if (!M) { E.print("nfacts", errs()); return 1; }
        std::error_code ec;
        std::string tmp = std::string(argv[i + 1]) + ".tmp";
        { raw_fd_ostream o(tmp, ec); if (ec) { errs() << ec.message() << "\n"; return 1; } Dumper d(*M, o); d.run(); }
        if (rename(tmp.c_str(), argv[i + 1])) return 1;
    }
    return 0;
}
