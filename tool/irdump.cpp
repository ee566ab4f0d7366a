// irdump: turns an LLVM bitcode module into a JSON description that the
// analysis (../itcsa) interprets abstractly. It performs no analysis itself.
#include "llvm/ADT/SmallVector.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace llvm;
using json::OStream;

static const DataLayout* DL;
static std::map<const Value*, int> ids;
static std::map<std::string, int> files;
static std::vector<std::string> fileList;

static int fileId(const DIFile* f)
{
    std::string n;
    if(f)
    {
        n = f->getFilename().str();
        if(!n.empty() && n[0] != '/')
            n = f->getDirectory().str() + "/" + n;
    }
    auto it = files.find(n);
    if(it != files.end())
        return it->second;
    int k = files.size();
    files[n] = k;
    fileList.push_back(n);
    return k;
}

static uint64_t sz(Type* t)
{
    return t->isSized() ? (uint64_t)DL->getTypeAllocSize(t) : 0;
}

static std::string tyName(Type* t)
{
    if(auto* s = dyn_cast<StructType>(t))
    {
        if(s->hasName())
            return s->getName().str();
        return "{}";
    }
    if(t->isPointerTy())
        return "ptr";
    if(t->isIntegerTy())
        return "i" + std::to_string(t->getIntegerBitWidth());
    if(t->isVoidTy())
        return "void";
    if(t->isFloatingPointTy())
        return "fp";
    if(t->isArrayTy())
        return "[" + std::to_string(t->getArrayNumElements()) + "x" + tyName(t->getArrayElementType()) + "]";
    return "?";
}

static void operand(OStream& J, const Value* v);

// describes a GEP: base, constant byte offset, variable parts, struct types crossed
static void gepBody(OStream& J, const GEPOperator* g)
{
    int64_t off = 0;
    std::vector<std::pair<const Value*, uint64_t>> var;
    std::vector<std::pair<int64_t, std::string>> types; // (offset at which struct sits, name)
    Type* srcTy = g->getSourceElementType();
    if(auto* st = dyn_cast<StructType>(srcTy))
        if(st->hasName() && g->getNumIndices() > 0)
            types.push_back({0, st->getName().str()});
    bool first = true;
    for(auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it)
    {
        const Value* idx = it.getOperand();
        if(StructType* st = it.getStructTypeOrNull())
        {
            unsigned k = cast<ConstantInt>(idx)->getZExtValue();
            off += DL->getStructLayout(st)->getElementOffset(k);
            Type* et = st->getElementType(k);
            if(auto* est = dyn_cast<StructType>(et))
                if(est->hasName())
                    types.push_back({off, est->getName().str()});
        }
        else
        {
            uint64_t s = sz(it.getIndexedType());
            if(auto* ci = dyn_cast<ConstantInt>(idx))
                off += ci->getSExtValue() * (int64_t)s;
            else
                var.push_back({idx, s});
        }
        first = false;
    }
    (void)first;
    operand(J, g->getPointerOperand());
    J.value(off);
    J.arrayBegin();
    for(auto& p : var)
    {
        J.arrayBegin();
        operand(J, p.first);
        J.value((int64_t)p.second);
        J.arrayEnd();
    }
    J.arrayEnd();
    J.arrayBegin();
    for(auto& p : types)
    {
        J.arrayBegin();
        J.value(p.first);
        J.value(p.second);
        J.arrayEnd();
    }
    J.arrayEnd();
}

static void operand(OStream& J, const Value* v)
{
    J.arrayBegin();
    if(auto it = ids.find(v); it != ids.end())
    {
        J.value("v");
        J.value(it->second);
    }
    else if(auto* ci = dyn_cast<ConstantInt>(v))
    {
        J.value("i");
        if(ci->getBitWidth() <= 64)
            J.value((uint64_t)ci->getZExtValue());
        else
            J.value(-1);
    }
    else if(isa<ConstantPointerNull>(v))
    {
        J.value("i");
        J.value(0);
    }
    else if(auto* f = dyn_cast<Function>(v))
    {
        J.value("f");
        J.value(f->getName());
    }
    else if(auto* gv = dyn_cast<GlobalVariable>(v))
    {
        J.value("g");
        J.value(gv->getName());
    }
    else if(auto* ga = dyn_cast<GlobalAlias>(v))
    {
        const Value* t = ga->getAliaseeObject();
        if(auto* f = dyn_cast_or_null<Function>(t))
        {
            J.value("f");
            J.value(f->getName());
        }
        else
        {
            J.value("g");
            J.value(ga->getName());
        }
    }
    else if(auto* ce = dyn_cast<ConstantExpr>(v))
    {
        if(ce->getOpcode() == Instruction::GetElementPtr)
        {
            J.value("gep");
            gepBody(J, cast<GEPOperator>(ce));
        }
        else if(ce->isCast())
        {
            J.value("cast");
            operand(J, ce->getOperand(0));
        }
        else
        {
            J.value("u");
        }
    }
    else if(isa<ConstantAggregateZero>(v))
    {
        J.value("zero");
    }
    else if(auto* ca = dyn_cast<ConstantStruct>(v))
    {
        J.value("agg");
        J.arrayBegin();
        for(auto& o : ca->operands())
            operand(J, o.get());
        J.arrayEnd();
    }
    else if(isa<UndefValue>(v))
    {
        J.value("u");
    }
    else if(isa<MetadataAsValue>(v))
    {
        J.value("m");
    }
    else if(isa<ConstantFP>(v))
    {
        J.value("fp");
        SmallString<16> s;
        cast<ConstantFP>(v)->getValueAPF().toString(s);
        J.value(s.str());
    }
    else
    {
        J.value("u");
    }
    J.arrayEnd();
}

static void flattenInit(OStream& J, const Constant* c, uint64_t off)
{
    Type* t = c->getType();
    if(auto* st = dyn_cast<StructType>(t))
    {
        if(isa<UndefValue>(c))
            return;
        auto* sl = DL->getStructLayout(st);
        for(unsigned i = 0; i < st->getNumElements(); ++i)
            if(auto* e = c->getAggregateElement(i))
                flattenInit(J, e, off + sl->getElementOffset(i));
        return;
    }
    if(auto* at = dyn_cast<ArrayType>(t))
    {
        if(at->getNumElements() > 64)
            return;
        uint64_t es = sz(at->getElementType());
        for(unsigned i = 0; i < at->getNumElements(); ++i)
            if(auto* e = c->getAggregateElement(i))
                flattenInit(J, e, off + i * es);
        return;
    }
    J.arrayBegin();
    J.value((int64_t)off);
    J.value((int64_t)sz(t));
    operand(J, c);
    J.arrayEnd();
}

static std::string diQual(const DIScope* s)
{
    if(!s)
        return "";
    std::string r;
    if(auto* ns = dyn_cast<DINamespace>(s))
    {
        r = diQual(ns->getScope());
        return r + (r.empty() ? "" : "::") + (ns->getName().empty() ? "(anonymous)" : ns->getName().str());
    }
    if(auto* t = dyn_cast<DIType>(s))
    {
        r = diQual(t->getScope());
        return r + (r.empty() ? "" : "::") + t->getName().str();
    }
    if(auto* sp = dyn_cast<DISubprogram>(s))
    {
        r = diQual(sp->getScope());
        return r + (r.empty() ? "" : "::") + sp->getName().str() + "()";
    }
    if(auto* lb = dyn_cast<DILexicalBlockBase>(s))
        return diQual(lb->getScope());
    return r;
}

static std::string diTypeName(const DIType* t, int d = 0)
{
    if(!t || d > 6)
        return "void";
    if(auto* c = dyn_cast<DICompositeType>(t))
    {
        std::string q = diQual(c->getScope());
        return q + (q.empty() ? "" : "::") + c->getName().str();
    }
    if(auto* b = dyn_cast<DIBasicType>(t))
        return b->getName().str();
    if(auto* dt = dyn_cast<DIDerivedType>(t))
    {
        switch(dt->getTag())
        {
        case dwarf::DW_TAG_pointer_type:
            return diTypeName(dt->getBaseType(), d + 1) + "*";
        case dwarf::DW_TAG_reference_type:
            return diTypeName(dt->getBaseType(), d + 1) + "&";
        case dwarf::DW_TAG_rvalue_reference_type:
            return diTypeName(dt->getBaseType(), d + 1) + "&&";
        default:
            return diTypeName(dt->getBaseType(), d + 1);
        }
    }
    return "?";
}

int main(int argc, char** argv)
{
    LLVMContext ctx;
    SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, ctx);
    if(!M)
    {
        err.print(argv[0], errs());
        return 2;
    }
    DL = &M->getDataLayout();
    // modules are dumped one by one (linking them would merge equally laid out types)
    // and joined by name later: make what is local to the module unique
    const std::string suffix = argc > 2 ? std::string("@") + argv[2] : std::string();
    auto original = [](StringRef n)
    {
        return n.substr(0, n.find('@')).str();
    };
    for(auto& F : *M)
        if(F.hasLocalLinkage())
            F.setName(F.getName() + suffix);
    for(auto& G : M->globals())
        if(G.hasLocalLinkage())
            G.setName(G.getName() + suffix);
    for(auto* st : M->getIdentifiedStructTypes())
        if(st->hasName())
            st->setName((st->getName() + suffix).str());
    OStream J(outs());
    J.objectBegin();

    J.attributeBegin("functions");
    J.objectBegin();
    for(auto& F : *M)
    {
        J.attributeBegin(F.getName());
        J.objectBegin();
        J.attribute("dem", demangle(original(F.getName())));
        {
            // base name and enclosing class/namespace, without parsing the pretty name
            ItaniumPartialDemangler pd;
            const std::string mangled = original(F.getName());
            if(!pd.partialDemangle(mangled.c_str()) && pd.isFunction())
            {
                auto text = [](char* p, size_t n)
                {
                    std::string r(p ? p : "", p ? n : 0);
                    std::free(p);
                    return json::fixUTF8(r.substr(0, r.find(char(0))));
                };
                size_t n = 0;
                char* p = pd.getFunctionBaseName(nullptr, &n);
                J.attribute("base", text(p, n));
                n = 0;
                p = pd.getFunctionDeclContextName(nullptr, &n);
                J.attribute("ctx", text(p, n));
            }
        }
        J.attribute("decl", F.isDeclaration());
        J.attribute("nounwind", F.doesNotThrow());
        J.attribute("noreturn", F.doesNotReturn());
        J.attribute("ret", tyName(F.getReturnType()));
        J.attribute("retsz", F.getReturnType()->isVoidTy() ? 0 : (int64_t)sz(F.getReturnType()));
        J.attribute("vararg", F.isVarArg());
        if(auto* sp = F.getSubprogram())
        {
            J.attribute("file", fileId(sp->getFile()));
            J.attribute("line", (int64_t)sp->getLine());
        }
        ids.clear();
        int n = 0;
        for(auto& A : F.args())
            ids[&A] = n++;
        J.attribute("nargs", n);
        {
            int sret = -1, k = 0;
            J.attributeBegin("argtys");
            J.arrayBegin();
            for(auto& A : F.args())
            {
                if(A.hasStructRetAttr())
                    sret = k;
                J.value(tyName(A.getType()));
                ++k;
            }
            J.arrayEnd();
            J.attributeEnd();
            J.attribute("sret", sret);
            J.attributeBegin("byval");
            J.arrayBegin();
            k = 0;
            for(auto& A : F.args())
            {
                if(A.hasByValAttr())
                {
                    J.arrayBegin();
                    J.value(k);
                    J.value((int64_t)sz(A.getParamByValType()));
                    J.arrayEnd();
                }
                ++k;
            }
            J.arrayEnd();
            J.attributeEnd();
            J.attributeBegin("ditypes");
            J.arrayBegin();
            if(auto* sp = F.getSubprogram())
                if(auto* ty = sp->getType())
                    for(auto* t : ty->getTypeArray())
                        J.value(json::fixUTF8(diTypeName(t)));
            J.arrayEnd();
            J.attributeEnd();
        }
        std::map<const BasicBlock*, int> bbs;
        if(!F.isDeclaration())
        {
            int b = 0;
            for(auto& B : F)
            {
                bbs[&B] = b++;
                for(auto& I : B)
                    ids[&I] = n++;
            }
            J.attributeBegin("blocks");
            J.arrayBegin();
            for(auto& B : F)
            {
                J.arrayBegin();
                for(auto& I : B)
                {
                    if(isa<DbgInfoIntrinsic>(I))
                        continue;
                    J.arrayBegin();
                    J.value(I.getOpcodeName());
                    J.value(ids[&I]);
                    if(auto& dl = I.getDebugLoc())
                    {
                        J.arrayBegin();
                        J.value((int64_t)dl.getLine());
                        J.value(fileId(dl->getFile()));
                        J.arrayEnd();
                    }
                    else
                        J.value(nullptr);
                    J.value(I.getType()->isVoidTy() ? 0 : (int64_t)sz(I.getType()));
                    switch(I.getOpcode())
                    {
                    case Instruction::Alloca:
                    {
                        auto& a = cast<AllocaInst>(I);
                        J.value((int64_t)sz(a.getAllocatedType()));
                        J.value(tyName(a.getAllocatedType()));
                        break;
                    }
                    case Instruction::Load:
                        operand(J, I.getOperand(0));
                        J.value(cast<LoadInst>(I).isAtomic());
                        J.value(tyName(I.getType()));
                        J.value((int)cast<LoadInst>(I).getOrdering());
                        break;
                    case Instruction::Store:
                        operand(J, I.getOperand(0));
                        operand(J, I.getOperand(1));
                        J.value((int64_t)sz(I.getOperand(0)->getType()));
                        J.value(cast<StoreInst>(I).isAtomic());
                        J.value((int)cast<StoreInst>(I).getOrdering());
                        break;
                    case Instruction::GetElementPtr:
                        gepBody(J, cast<GEPOperator>(&I));
                        break;
                    case Instruction::Call:
                    case Instruction::Invoke:
                    {
                        auto& c = cast<CallBase>(I);
                        operand(J, c.getCalledOperand());
                        J.arrayBegin();
                        for(auto& a : c.args())
                            operand(J, a.get());
                        J.arrayEnd();
                        J.value(c.doesNotThrow());
                        if(auto* inv = dyn_cast<InvokeInst>(&I))
                        {
                            J.value(bbs[inv->getNormalDest()]);
                            J.value(bbs[inv->getUnwindDest()]);
                        }
                        else
                        {
                            J.value(-1);
                            J.value(-1);
                        }
                        break;
                    }
                    case Instruction::Br:
                    {
                        auto& b2 = cast<BranchInst>(I);
                        if(b2.isConditional())
                        {
                            operand(J, b2.getCondition());
                            J.value(bbs[b2.getSuccessor(0)]);
                            J.value(bbs[b2.getSuccessor(1)]);
                        }
                        else
                        {
                            J.value(nullptr);
                            J.value(bbs[b2.getSuccessor(0)]);
                            J.value(-1);
                        }
                        break;
                    }
                    case Instruction::Switch:
                    {
                        auto& s = cast<SwitchInst>(I);
                        operand(J, s.getCondition());
                        J.value(bbs[s.getDefaultDest()]);
                        J.arrayBegin();
                        for(auto& c : s.cases())
                        {
                            J.arrayBegin();
                            J.value((int64_t)c.getCaseValue()->getZExtValue());
                            J.value(bbs[c.getCaseSuccessor()]);
                            J.arrayEnd();
                        }
                        J.arrayEnd();
                        break;
                    }
                    case Instruction::PHI:
                    {
                        auto& p = cast<PHINode>(I);
                        J.arrayBegin();
                        for(unsigned i = 0; i < p.getNumIncomingValues(); ++i)
                        {
                            J.arrayBegin();
                            J.value(bbs[p.getIncomingBlock(i)]);
                            operand(J, p.getIncomingValue(i));
                            J.arrayEnd();
                        }
                        J.arrayEnd();
                        break;
                    }
                    case Instruction::ICmp:
                    case Instruction::FCmp:
                        J.value(CmpInst::getPredicateName(cast<CmpInst>(I).getPredicate()));
                        operand(J, I.getOperand(0));
                        operand(J, I.getOperand(1));
                        J.value((int64_t)sz(I.getOperand(0)->getType()));
                        break;
                    case Instruction::ExtractValue:
                    {
                        auto& e = cast<ExtractValueInst>(I);
                        operand(J, I.getOperand(0));
                        J.arrayBegin();
                        for(unsigned k : e.indices())
                            J.value((int64_t)k);
                        J.arrayEnd();
                        break;
                    }
                    case Instruction::InsertValue:
                    {
                        auto& e = cast<InsertValueInst>(I);
                        operand(J, I.getOperand(0));
                        operand(J, I.getOperand(1));
                        J.arrayBegin();
                        for(unsigned k : e.indices())
                            J.value((int64_t)k);
                        J.arrayEnd();
                        break;
                    }
                    case Instruction::LandingPad:
                    {
                        auto& l = cast<LandingPadInst>(I);
                        J.value(l.isCleanup());
                        J.arrayBegin();
                        for(unsigned k = 0; k < l.getNumClauses(); ++k)
                        {
                            J.arrayBegin();
                            J.value(l.isCatch(k) ? "catch" : "filter");
                            operand(J, l.getClause(k));
                            J.arrayEnd();
                        }
                        J.arrayEnd();
                        break;
                    }
                    case Instruction::AtomicRMW:
                    {
                        auto& r = cast<AtomicRMWInst>(I);
                        J.value(AtomicRMWInst::getOperationName(r.getOperation()));
                        operand(J, r.getPointerOperand());
                        operand(J, r.getValOperand());
                        J.value((int64_t)sz(r.getValOperand()->getType()));
                        J.value((int)r.getOrdering());
                        break;
                    }
                    case Instruction::AtomicCmpXchg:
                    {
                        auto& r = cast<AtomicCmpXchgInst>(I);
                        operand(J, r.getPointerOperand());
                        operand(J, r.getCompareOperand());
                        operand(J, r.getNewValOperand());
                        J.value((int64_t)sz(r.getNewValOperand()->getType()));
                        break;
                    }
                    default:
                        for(auto& o : I.operands())
                            if(!isa<BasicBlock>(o.get()))
                                operand(J, o.get());
                        break;
                    }
                    J.arrayEnd();
                }
                J.arrayEnd();
            }
            J.arrayEnd();
            J.attributeEnd();
        }
        J.objectEnd();
        J.attributeEnd();
    }
    J.objectEnd();
    J.attributeEnd();
    ids.clear();

    J.attributeBegin("aliases");
    J.objectBegin();
    for(auto& A : M->aliases())
        J.attribute(A.getName(), A.getAliasee()->stripPointerCasts()->getName());
    J.objectEnd();
    J.attributeEnd();

    J.attributeBegin("globals");
    J.objectBegin();
    for(auto& G : M->globals())
    {
        J.attributeBegin(G.getName());
        J.objectBegin();
        J.attribute("dem", demangle(original(G.getName())));
        J.attribute("tls", G.isThreadLocal());
        J.attribute("const", G.isConstant());
        J.attribute("size", (int64_t)sz(G.getValueType()));
        J.attribute("type", tyName(G.getValueType()));
        if(G.hasInitializer())
        {
            J.attributeBegin("init");
            J.arrayBegin();
            flattenInit(J, G.getInitializer(), 0);
            J.arrayEnd();
            J.attributeEnd();
        }
        J.objectEnd();
        J.attributeEnd();
    }
    J.objectEnd();
    J.attributeEnd();

    // struct layouts
    J.attributeBegin("structs");
    J.objectBegin();
    for(auto* st : M->getIdentifiedStructTypes())
    {
        if(!st->hasName() || st->isOpaque() || !st->isSized())
            continue;
        J.attributeBegin(st->getName());
        J.objectBegin();
        J.attribute("size", (int64_t)sz(st));
        J.attributeBegin("elems");
        J.arrayBegin();
        auto* sl = DL->getStructLayout(st);
        for(unsigned i = 0; i < st->getNumElements(); ++i)
        {
            J.arrayBegin();
            J.value((int64_t)(uint64_t)sl->getElementOffset(i));
            J.value(tyName(st->getElementType(i)));
            J.arrayEnd();
        }
        J.arrayEnd();
        J.attributeEnd();
        J.objectEnd();
        J.attributeEnd();
    }
    J.objectEnd();
    J.attributeEnd();

    // debug-info record types: field names by byte offset
    DebugInfoFinder finder;
    finder.processModule(*M);
    J.attributeBegin("records");
    J.arrayBegin();
    for(auto* t : finder.types())
    {
        auto* c = dyn_cast<DICompositeType>(t);
        if(!c || (c->getTag() != dwarf::DW_TAG_class_type && c->getTag() != dwarf::DW_TAG_structure_type))
            continue;
        if(c->isForwardDecl())
            continue;
        J.objectBegin();
        J.attribute("name", diTypeName(c));
        J.attribute("id", c->getIdentifier());
        J.attribute("size", (int64_t)(c->getSizeInBits() / 8));
        J.attribute("line", (int64_t)c->getLine());
        J.attributeBegin("members");
        J.arrayBegin();
        for(auto* e : c->getElements())
        {
            auto* m = dyn_cast_or_null<DIDerivedType>(e);
            if(!m || m->isStaticMember())
                continue;
            if(m->getTag() == dwarf::DW_TAG_member || m->getTag() == dwarf::DW_TAG_inheritance)
            {
                J.arrayBegin();
                J.value(m->getTag() == dwarf::DW_TAG_inheritance ? "<base>" : m->getName());
                J.value((int64_t)(m->getOffsetInBits() / 8));
                J.value((int64_t)(m->getBaseType() ? m->getBaseType()->getSizeInBits() / 8 : 0));
                J.value(diTypeName(m->getBaseType()));
                J.arrayEnd();
            }
        }
        J.arrayEnd();
        J.attributeEnd();
        J.objectEnd();
    }
    J.arrayEnd();
    J.attributeEnd();

    J.attributeBegin("files");
    J.arrayBegin();
    for(auto& f : fileList)
        J.value(f);
    J.arrayEnd();
    J.attributeEnd();
    J.objectEnd();
    outs() << "\n";
    return 0;
}
