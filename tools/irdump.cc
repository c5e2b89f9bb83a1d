// irdump: link LLVM bitcode files, inline every non-recursive internal helper
// defined under the source root (and every external function that is not in the
// list of known interface functions), promote locals to SSA, and dump the
// resolved program as JSON for the Python analyses.
//
// usage: irdump ROOT KNOWN.txt OUT.json a.bc b.bc ...
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/Support/Format.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace llvm;

static std::string Root;
static std::map<std::string, int> FileIds;
static std::vector<std::string> Files;
static raw_ostream *OS;

static void jstr (StringRef s)
{
    raw_ostream &o = *OS;
    o << '"';
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o << '\\' << (char) c; }
        else if (c < 0x20 || c >= 0x7f) { o << format ("\\u%04x", c); }
        else { o << (char) c; }
    }
    o << '"';
}

static std::string filePath (const DIFile *f)
{
    if (!f) return "";
    std::string p;
    if (f->getFilename ().starts_with ("/")) p = f->getFilename ().str ();
    else p = f->getDirectory ().str () + "/" + f->getFilename ().str ();
    if (p.rfind (Root + "/", 0) == 0) p = p.substr (Root.size () + 1);
    return p;
}

static int fileId (const DIFile *f)
{
    std::string p = filePath (f);
    auto it = FileIds.find (p);
    if (it != FileIds.end ()) return it->second;
    int id = Files.size ();
    Files.push_back (p);
    FileIds[p] = id;
    return id;
}

static bool isRepoPath (const std::string &p)
{
    return p.rfind ("lib/", 0) == 0 || p.rfind ("cli/", 0) == 0
        || p.rfind ("plugins/", 0) == 0 || p.rfind ("include/", 0) == 0;
}

static bool isRepoFn (const Function &F)
{
    if (F.isDeclaration ()) return false;
    DISubprogram *sp = F.getSubprogram ();
    if (!sp) return false;
    return isRepoPath (filePath (sp->getFile ()));
}

static std::map<const Value *, int> Ids;

static std::string tyName (Type *T)
{
    std::string s;
    raw_string_ostream o (s);
    if (auto *st = dyn_cast<StructType> (T)) { if (st->hasName ()) return st->getName ().str (); return "struct"; }
    T->print (o, false, true);
    return o.str ();
}

static const DataLayout *DL;

static void emitOp (const Value *V);

static void emitGepParts (const GEPOperator *G)
{
    raw_ostream &o = *OS;
    int64_t off = 0;
    std::vector<std::pair<const Value *, int64_t>> vars;
    std::string path = "[";
    bool first = true;
    Type *cur = nullptr;
    for (gep_type_iterator it = gep_type_begin (G), e = gep_type_end (G); it != e; ++it)
    {
        const Value *idx = it.getOperand ();
        if (StructType *st = it.getStructTypeOrNull ())
        {
            unsigned f = cast<ConstantInt> (idx)->getZExtValue ();
            off += DL->getStructLayout (st)->getElementOffset (f);
            std::string n = tyName (st);
            for (auto &c : n) if (c == '"' || c == '\\') c = '_';
            path += (first ? "" : ",") + std::string ("[\"") + n + "\"," +
                std::to_string (DL->getStructLayout (st)->getElementOffset (f)) + "]";
            first = false;
        }
        else
        {
            int64_t sz = DL->getTypeAllocSize (it.getIndexedType ());
            if (auto *ci = dyn_cast<ConstantInt> (idx)) off += ci->getSExtValue () * sz;
            else vars.push_back ({idx, sz});
        }
        (void) cur;
    }
    path += "]";
    emitOp (G->getPointerOperand ());
    o << "," << off << ",[";
    for (size_t i = 0; i < vars.size (); i++)
    {
        if (i) o << ",";
        o << "[";
        emitOp (vars[i].first);
        o << "," << vars[i].second << "]";
    }
    o << "]," << path;
}

static void emitOp (const Value *V)
{
    raw_ostream &o = *OS;
    if (auto *ci = dyn_cast<ConstantInt> (V))
    {
        if (ci->getBitWidth () > 64) { o << "[\"?\"]"; return; }
        if (ci->getBitWidth () == 1) o << "[\"i\"," << (ci->isZero () ? 0 : 1) << "]";
        else o << "[\"i\"," << ci->getSExtValue () << "]";
        return;
    }
    if (isa<ConstantPointerNull> (V)) { o << "[\"n\"]"; return; }
    if (isa<UndefValue> (V)) { o << "[\"u\"]"; return; }
    if (auto *gv = dyn_cast<GlobalValue> (V)) { o << "[\"g\","; jstr (gv->getName ()); o << ",0]"; return; }
    if (isa<Argument> (V)) { o << "[\"a\"," << cast<Argument> (V)->getArgNo () << "]"; return; }
    if (auto *ce = dyn_cast<ConstantExpr> (V))
    {
        if (auto *g = dyn_cast<GEPOperator> (ce))
        {
            APInt ap (64, 0);
            if (g->accumulateConstantOffset (*DL, ap))
                if (auto *gv = dyn_cast<GlobalValue> (g->getPointerOperand ()))
                {
                    o << "[\"g\","; jstr (gv->getName ()); o << "," << ap.getSExtValue () << "]";
                    return;
                }
        }
        if (ce->isCast ()) { emitOp (ce->getOperand (0)); return; }
        o << "[\"?\"]";
        return;
    }
    if (auto *fp = dyn_cast<ConstantFP> (V))
    {
        o << "[\"f\",";
        double d = 0;
        if (&fp->getValueAPF ().getSemantics () == &APFloat::IEEEdouble ()) d = fp->getValueAPF ().convertToDouble ();
        std::string s; raw_string_ostream so (s); so << d; jstr (so.str ());
        o << "]";
        return;
    }
    if (isa<Constant> (V)) { o << "[\"?\"]"; return; }
    auto it = Ids.find (V);
    if (it == Ids.end ()) { o << "[\"?\"]"; return; }
    o << "[\"v\"," << it->second << "]";
}

static const char *predName (CmpInst::Predicate p)
{
    switch (p)
    {
    case CmpInst::ICMP_EQ: return "eq"; case CmpInst::ICMP_NE: return "ne";
    case CmpInst::ICMP_UGT: return "ugt"; case CmpInst::ICMP_UGE: return "uge";
    case CmpInst::ICMP_ULT: return "ult"; case CmpInst::ICMP_ULE: return "ule";
    case CmpInst::ICMP_SGT: return "sgt"; case CmpInst::ICMP_SGE: return "sge";
    case CmpInst::ICMP_SLT: return "slt"; case CmpInst::ICMP_SLE: return "sle";
    default: return "f";
    }
}

static std::string scopeFn (const DILocation *L)
{
    if (auto *sp = L->getScope ()->getSubprogram ())
        return sp->getName ().str ();
    return "";
}

// loc: [file, line, fn, outerLine]
static void emitLoc (const Instruction &I)
{
    raw_ostream &o = *OS;
    const DILocation *L = I.getDebugLoc ().get ();
    if (!L) { o << "0"; return; }
    o << "[" << fileId (L->getFile ()) << "," << L->getLine () << ",";
    jstr (scopeFn (L));
    const DILocation *A = L->getInlinedAt ();
    std::string chain;
    while (A)
    {
        o << "," << A->getLine ();
        A = A->getInlinedAt ();
    }
    o << "]";
}

static void emitInst (const Instruction &I, std::map<const BasicBlock *, int> &bb)
{
    raw_ostream &o = *OS;
    int id = Ids.count (&I) ? Ids[&I] : -1;
    auto head = [&] (const char *op) { o << "[\"" << op << "\"," << id << ","; emitLoc (I); o << ","; };
    if (auto *a = dyn_cast<AllocaInst> (&I))
    {
        head ("alloca");
        int64_t sz = -1;
        auto s = a->getAllocationSize (*DL);
        if (s && !s->isScalable ()) sz = s->getFixedValue ();
        o << sz << ","; jstr (tyName (a->getAllocatedType ()));
        o << ",";
        std::string nm = a->getName ().str ();
        jstr (nm);
        o << "]";
        return;
    }
    if (auto *l = dyn_cast<LoadInst> (&I))
    { head ("load"); emitOp (l->getPointerOperand ()); o << ","; jstr (tyName (l->getType ())); o << "]"; return; }
    if (auto *s = dyn_cast<StoreInst> (&I))
    { head ("store"); emitOp (s->getValueOperand ()); o << ","; emitOp (s->getPointerOperand ()); o << ",";
      jstr (tyName (s->getValueOperand ()->getType ())); o << "]"; return; }
    if (auto *g = dyn_cast<GetElementPtrInst> (&I))
    { head ("gep"); emitGepParts (cast<GEPOperator> (g)); o << "]"; return; }
    if (auto *c = dyn_cast<CastInst> (&I))
    { head ("cast"); o << "\"" << c->getOpcodeName () << "\","; emitOp (c->getOperand (0)); o << ",";
      jstr (tyName (c->getSrcTy ())); o << ","; jstr (tyName (c->getDestTy ())); o << "]"; return; }
    if (auto *b = dyn_cast<BinaryOperator> (&I))
    { head ("bin"); o << "\"" << b->getOpcodeName () << "\","; emitOp (b->getOperand (0)); o << ","; emitOp (b->getOperand (1));
      o << ","; jstr (tyName (b->getType ())); o << "]"; return; }
    if (auto *c = dyn_cast<ICmpInst> (&I))
    { head ("icmp"); o << "\"" << predName (c->getPredicate ()) << "\","; emitOp (c->getOperand (0)); o << ","; emitOp (c->getOperand (1));
      o << ","; jstr (tyName (c->getOperand (0)->getType ())); o << "]"; return; }
    if (auto *p = dyn_cast<PHINode> (&I))
    {
        head ("phi"); o << "[";
        for (unsigned i = 0; i < p->getNumIncomingValues (); i++)
        {
            if (i) o << ",";
            o << "["; emitOp (p->getIncomingValue (i)); o << "," << bb[p->getIncomingBlock (i)] << "]";
        }
        o << "],"; jstr (tyName (p->getType ())); o << "]";
        return;
    }
    if (auto *s = dyn_cast<SelectInst> (&I))
    { head ("select"); emitOp (s->getCondition ()); o << ","; emitOp (s->getTrueValue ()); o << ","; emitOp (s->getFalseValue ()); o << "]"; return; }
    if (auto *cb = dyn_cast<CallBase> (&I))
    {
        if (isa<DbgInfoIntrinsic> (cb)) return;
        const Value *callee = cb->getCalledOperand ()->stripPointerCasts ();
        head ("call");
        if (auto *f = dyn_cast<Function> (callee)) { jstr (f->getName ()); }
        else { emitOp (cb->getCalledOperand ()); }
        o << ",[";
        for (unsigned i = 0; i < cb->arg_size (); i++)
        {
            if (i) o << ",";
            if (cb->getArgOperand (i)->getType ()->isMetadataTy ()) o << "[\"?\"]";
            else emitOp (cb->getArgOperand (i));
        }
        o << "],"; jstr (tyName (cb->getType ()));
        bool nn = cb->hasRetAttr (Attribute::NonNull) || cb->hasRetAttr (Attribute::Dereferenceable);
        if (auto *f = dyn_cast<Function> (callee))
            nn = nn || f->hasRetAttribute (Attribute::NonNull) || f->hasRetAttribute (Attribute::Dereferenceable);
        o << "," << (nn ? 1 : 0);
        if (auto *iv = dyn_cast<InvokeInst> (cb))
            o << "," << bb[iv->getNormalDest ()] << "," << bb[iv->getUnwindDest ()];
        else
            o << ",-1,-1";
        bool nounw = cb->doesNotThrow ();
        bool noret = cb->doesNotReturn ();
        o << "," << (nounw ? 1 : 0) << "," << (noret ? 1 : 0) << "]";
        return;
    }
    if (auto *b = dyn_cast<BranchInst> (&I))
    {
        if (b->isConditional ())
        { head ("br"); emitOp (b->getCondition ()); o << "," << bb[b->getSuccessor (0)] << "," << bb[b->getSuccessor (1)] << "]"; }
        else { head ("jmp"); o << bb[b->getSuccessor (0)] << "]"; }
        return;
    }
    if (auto *s = dyn_cast<SwitchInst> (&I))
    {
        head ("switch"); emitOp (s->getCondition ()); o << "," << bb[s->getDefaultDest ()] << ",[";
        bool first = true;
        for (auto &c : s->cases ())
        {
            if (!first) o << ",";
            first = false;
            o << "[" << c.getCaseValue ()->getSExtValue () << "," << bb[c.getCaseSuccessor ()] << "]";
        }
        o << "]]";
        return;
    }
    if (auto *r = dyn_cast<ReturnInst> (&I))
    { head ("ret"); if (r->getReturnValue ()) { emitOp (r->getReturnValue ()); } else o << "0"; o << "]"; return; }
    if (isa<UnreachableInst> (&I)) { head ("unreachable"); o << "0]"; return; }
    if (auto *lp = dyn_cast<LandingPadInst> (&I))
    {
        head ("landingpad"); o << (lp->isCleanup () ? 1 : 0) << ",[";
        for (unsigned i = 0; i < lp->getNumClauses (); i++)
        {
            if (i) o << ",";
            if (!lp->isCatch (i)) { o << "\"filter\""; continue; }
            const Value *c = lp->getClause (i)->stripPointerCasts ();
            if (isa<ConstantPointerNull> (c)) o << "\"*\"";
            else jstr (c->getName ());
        }
        o << "]]";
        return;
    }
    if (isa<ResumeInst> (&I)) { head ("resume"); o << "0]"; return; }
    if (auto *e = dyn_cast<ExtractValueInst> (&I))
    { head ("extract"); emitOp (e->getAggregateOperand ()); o << "," << (e->getNumIndices () ? (int) e->getIndices ()[0] : 0) << "]"; return; }
    // anything else
    head ("other"); o << "\"" << I.getOpcodeName () << "\",[";
    for (unsigned i = 0; i < I.getNumOperands (); i++)
    {
        if (i) o << ",";
        if (isa<BasicBlock> (I.getOperand (i))) o << "[\"?\"]";
        else emitOp (I.getOperand (i));
    }
    o << "]";
    if (auto *c = dyn_cast<FCmpInst> (&I)) o << ",\"" << CmpInst::getPredicateName (c->getPredicate ()).str () << "\"";
    o << "]";
}

static std::string diTypeName (const DIType *T)
{
    if (!T) return "void";
    if (auto *d = dyn_cast<DIDerivedType> (T))
    {
        std::string b = diTypeName (d->getBaseType ());
        switch (d->getTag ())
        {
        case dwarf::DW_TAG_pointer_type: return b + "*";
        case dwarf::DW_TAG_reference_type: return b + "&";
        case dwarf::DW_TAG_rvalue_reference_type: return b + "&&";
        case dwarf::DW_TAG_const_type: return "const " + b;
        case dwarf::DW_TAG_typedef: return d->getName ().str ();
        default: return b;
        }
    }
    if (auto *c = dyn_cast<DICompositeType> (T))
    {
        std::string p;
        if (c->getTag () == dwarf::DW_TAG_enumeration_type) p = "enum ";
        else if (c->getTag () == dwarf::DW_TAG_union_type) p = "union ";
        else if (c->getTag () == dwarf::DW_TAG_array_type) p = "array " + diTypeName (c->getBaseType ());
        else p = "struct ";
        return p + c->getName ().str ();
    }
    if (isa<DISubroutineType> (T)) return "fn";
    return T->getName ().str ();
}

static void emitInit (const Constant *C, int depth)
{
    raw_ostream &o = *OS;
    if (auto *cda = dyn_cast<ConstantDataArray> (C))
    {
        if (cda->isString () || cda->isCString ()) { o << "[\"s\","; jstr (cda->getAsString ()); o << "]"; return; }
        o << "[\"arr\",[";
        for (unsigned i = 0; i < cda->getNumElements () && i < 256; i++)
        {
            if (i) o << ",";
            emitOp (cda->getElementAsConstant (i));
        }
        o << "]]";
        return;
    }
    if (isa<ConstantAggregateZero> (C)) { o << "[\"zero\"]"; return; }
    if ((isa<ConstantArray> (C) || isa<ConstantStruct> (C)) && depth < 4)
    {
        o << "[\"arr\",[";
        for (unsigned i = 0; i < C->getNumOperands (); i++)
        {
            if (i) o << ",";
            emitInit (cast<Constant> (C->getOperand (i)), depth + 1);
        }
        o << "]]";
        return;
    }
    emitOp (C);
}

int main (int argc, char **argv)
{
    if (argc < 5) { errs () << "usage: irdump ROOT KNOWN OUT.json *.bc\n"; return 2; }
    Root = argv[1];
    std::set<std::string> known;
    {
        std::ifstream f (argv[2]);
        std::string s;
        while (std::getline (f, s)) if (!s.empty ()) known.insert (s);
    }
    LLVMContext ctx;
    ctx.setDiscardValueNames (false);
    std::unique_ptr<Module> M;
    for (int i = 4; i < argc; i++)
    {
        SMDiagnostic err;
        auto m = parseIRFile (argv[i], err, ctx);
        if (!m) { err.print ("irdump", errs ()); return 2; }
        if (!M) M = std::move (m);
        else if (Linker::linkModules (*M, std::move (m))) { errs () << "link failed\n"; return 2; }
    }
    DL = &M->getDataLayout ();

    // Call graph before inlining; every repo function and its raw direct callees.
    std::set<const Function *> recursive;
    {
        CallGraph cg (*M);
        for (scc_iterator<CallGraph *> it = scc_begin (&cg); !it.isAtEnd (); ++it)
        {
            bool loop = it->size () > 1;
            if (!loop)
                for (auto &e : *(*it)[0]) if (e.second == (*it)[0]) loop = true;
            if (loop) for (auto *n : *it) if (n->getFunction ()) recursive.insert (n->getFunction ());
        }
    }
    std::set<std::string> inlined;
    for (Function &F : *M)
    {
        F.removeFnAttr (Attribute::NoInline);
        F.removeFnAttr (Attribute::OptimizeNone);
        if (!isRepoFn (F)) continue;
        if (recursive.count (&F)) continue;
        if (F.isVarArg ()) continue;
        bool take = F.hasLocalLinkage ();
        if (!take && !known.empty () && !known.count (F.getName ().str ()) && F.getName () != "main")
            take = true;
        if (known.count (F.getName ().str ())) take = false;
        if (take) { F.addFnAttr (Attribute::AlwaysInline); inlined.insert (F.getName ().str ()); }
    }

    // Raw (pre-inline) facts: linkage, callees with unwind information.
    std::error_code ec;
    raw_fd_ostream out (argv[3], ec);
    if (ec) { errs () << ec.message () << "\n"; return 2; }
    OS = &out;
    raw_ostream &o = out;
    o << "{\"raw\":{";
    bool firstF = true;
    for (Function &F : *M)
    {
        if (F.isDeclaration ()) continue;
        if (F.isIntrinsic ()) continue;
        if (!firstF) o << ",\n";
        firstF = false;
        jstr (F.getName ());
        DISubprogram *sp = F.getSubprogram ();
        o << ":{\"repo\":" << (isRepoFn (F) ? 1 : 0) << ",\"file\":" << (sp ? fileId (sp->getFile ()) : -1)
          << ",\"line\":" << (sp ? (int) sp->getLine () : 0)
          << ",\"local\":" << (F.hasLocalLinkage () ? 1 : 0)
          << ",\"nounwind\":" << (F.doesNotThrow () ? 1 : 0)
          << ",\"hidden\":" << (F.hasHiddenVisibility () ? 1 : 0)
          << ",\"recursive\":" << (recursive.count (&F) ? 1 : 0)
          << ",\"dname\":";
        jstr (sp ? sp->getName () : F.getName ());
        o << ",\"calls\":[";
        bool first = true;
        // landing pads: catches
        for (BasicBlock &B : F)
            for (Instruction &I : B)
                if (auto *cb = dyn_cast<CallBase> (&I))
                {
                    if (isa<DbgInfoIntrinsic> (cb)) continue;
                    const Value *c = cb->getCalledOperand ()->stripPointerCasts ();
                    auto *f = dyn_cast<Function> (c);
                    if (f && f->isIntrinsic ()) continue;
                    if (!first) o << ",";
                    first = false;
                    o << "[";
                    jstr (f ? f->getName () : "*");
                    o << "," << (cb->doesNotThrow () ? 1 : 0) << ",";
                    const DILocation *L = I.getDebugLoc ().get ();
                    o << (L ? (int) L->getLine () : 0) << ",[";
                    if (auto *iv = dyn_cast<InvokeInst> (cb))
                        if (auto *lp = iv->getLandingPadInst ())
                        {
                            for (unsigned i = 0; i < lp->getNumClauses (); i++)
                            {
                                if (i) o << ",";
                                if (!lp->isCatch (i)) { o << "\"filter\""; continue; }
                                const Value *cl = lp->getClause (i)->stripPointerCasts ();
                                if (isa<ConstantPointerNull> (cl)) o << "\"*\"";
                                else jstr (cl->getName ());
                            }
                        }
                    o << "]";
                    // thrown type
                    if (f && f->getName () == "__cxa_throw")
                    {
                        o << ",";
                        jstr (cb->getArgOperand (1)->stripPointerCasts ()->getName ());
                    }
                    o << "]";
                }
        o << "]}";
    }
    o << "},\n\"globals\":{";
    bool firstG = true;
    for (GlobalVariable &G : M->globals ())
    {
        if (!G.hasInitializer ()) continue;
        if (G.getName ().starts_with ("llvm.")) continue;
        if (G.getName ().starts_with ("_ZT")) continue;
        if (!firstG) o << ",\n";
        firstG = false;
        jstr (G.getName ());
        o << ":[" << (G.isConstant () ? 1 : 0) << "," << DL->getTypeAllocSize (G.getValueType ()) << ",";
        emitInit (G.getInitializer (), 0);
        std::string vf = "";
        SmallVector<DIGlobalVariableExpression *, 1> gves;
        G.getDebugInfo (gves);
        if (!gves.empty ()) vf = gves[0]->getVariable ()->getName ().str ();
        o << ","; jstr (vf); o << "]";
    }
    o << "},\n";

    // Inline and promote.
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses (MAM); PB.registerCGSCCAnalyses (CGAM);
    PB.registerFunctionAnalyses (FAM); PB.registerLoopAnalyses (LAM);
    PB.crossRegisterProxies (LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    MPM.addPass (AlwaysInlinerPass (false));
    MPM.addPass (createModuleToFunctionPassAdaptor (PromotePass ()));
    MPM.run (*M, MAM);

    // Debug type tables.
    DebugInfoFinder finder;
    finder.processModule (*M);
    o << "\"structs\":{";
    bool first = true;
    std::set<std::string> seen;
    for (DIType *T : finder.types ())
    {
        auto *c = dyn_cast<DICompositeType> (T);
        if (!c || c->isForwardDecl ()) continue;
        if (c->getTag () != dwarf::DW_TAG_structure_type && c->getTag () != dwarf::DW_TAG_class_type) continue;
        if (!isRepoPath (filePath (c->getFile ()))) continue;
        std::string n = c->getName ().str ();
        if (n.empty () || !seen.insert (n).second) continue;
        if (!first) o << ",\n";
        first = false;
        jstr (n);
        o << ":[";
        bool f2 = true;
        for (auto *e : c->getElements ())
        {
            auto *m = dyn_cast<DIDerivedType> (e);
            if (!m || m->getTag () != dwarf::DW_TAG_member) continue;
            std::vector<std::pair<const DIDerivedType *, int64_t>> items;
            items.push_back ({m, 0});
            // flatten anonymous unions / structs
            for (size_t i = 0; i < items.size (); i++)
            {
                auto *mm = items[i].first;
                int64_t base = items[i].second + (int64_t) (mm->getOffsetInBits () / 8);
                const DIType *bt = mm->getBaseType ();
                if (mm->getName ().empty ())
                    if (auto *cc = dyn_cast_or_null<DICompositeType> (bt))
                    {
                        for (auto *e2 : cc->getElements ())
                            if (auto *m2 = dyn_cast<DIDerivedType> (e2)) items.push_back ({m2, base});
                        continue;
                    }
                if (!f2) o << ",";
                f2 = false;
                o << "[" << base << ","; jstr (mm->getName ()); o << "," << mm->getSizeInBits () / 8 << ",";
                jstr (diTypeName (bt)); o << "]";
            }
        }
        o << "]";
    }
    o << "},\n\"enums\":{";
    first = true;
    seen.clear ();
    for (DIType *T : finder.types ())
    {
        auto *c = dyn_cast<DICompositeType> (T);
        if (!c || c->getTag () != dwarf::DW_TAG_enumeration_type) continue;
        if (!isRepoPath (filePath (c->getFile ()))) continue;
        std::string n = c->getName ().str ();
        if (n.empty () || !seen.insert (n).second) continue;
        if (!first) o << ",\n";
        first = false;
        jstr (n);
        o << ":[";
        bool f2 = true;
        for (auto *e : c->getElements ())
            if (auto *m = dyn_cast<DIEnumerator> (e))
            {
                if (!f2) o << ",";
                f2 = false;
                o << "["; jstr (m->getName ()); o << "," << m->getValue ().getSExtValue () << "]";
            }
        o << "]";
    }
    o << "},\n\"fns\":{";
    first = true;
    for (Function &F : *M)
    {
        if (!isRepoFn (F)) continue;
        if (!first) o << ",\n";
        first = false;
        jstr (F.getName ());
        DISubprogram *sp = F.getSubprogram ();
        o << ":{\"file\":" << fileId (sp->getFile ()) << ",\"line\":" << sp->getLine ()
          << ",\"dname\":"; jstr (sp->getName ());
        o << ",\"local\":" << (F.hasLocalLinkage () ? 1 : 0)
          << ",\"inl\":" << (inlined.count (F.getName ().str ()) ? 1 : 0)
          << ",\"addr\":" << (F.hasAddressTaken () ? 1 : 0)
          << ",\"vararg\":" << (F.isVarArg () ? 1 : 0)
          << ",\"ret\":";
        {
            DITypeRefArray ta = sp->getType ()->getTypeArray ();
            jstr (ta.size () ? diTypeName (ta[0]) : "void");
            o << ",\"params\":[";
            std::map<unsigned, const DILocalVariable *> names;
            for (auto *n : sp->getRetainedNodes ())
                if (auto *lv = dyn_cast<DILocalVariable> (n)) if (lv->getArg ()) names[lv->getArg ()] = lv;
            for (BasicBlock &B : F) for (Instruction &I : B)
                if (auto *d = dyn_cast<DbgVariableIntrinsic> (&I))
                    if (d->getVariable ()->getArg () && !(d->getDebugLoc () && d->getDebugLoc ()->getInlinedAt ()))
                        names[d->getVariable ()->getArg ()] = d->getVariable ();
            bool sret = F.arg_size () && F.hasParamAttribute (0, Attribute::StructRet);
            for (unsigned i = 0; i < F.arg_size (); i++)
            {
                if (i) o << ",";
                o << "[";
                unsigned dn = i + 1 - (sret ? 1 : 0);
                if (sret && i == 0) { jstr ("sret"); o << ","; jstr ("sret"); }
                else if (names.count (dn)) { jstr (names[dn]->getName ()); o << ","; jstr (diTypeName (names[dn]->getType ())); }
                else { jstr (F.getArg (i)->getName ()); o << ","; jstr (""); }
                o << ","; jstr (tyName (F.getArg (i)->getType ()));
                o << "," << ((F.hasParamAttribute (i, Attribute::NonNull) || F.hasParamAttribute (i, Attribute::Dereferenceable)) ? 1 : 0);
                o << "]";
            }
        }
        o << "],\n\"blocks\":[";
        Ids.clear ();
        std::map<const BasicBlock *, int> bb;
        int n = 0, id = 0;
        for (BasicBlock &B : F)
        {
            bb[&B] = n++;
            for (Instruction &I : B) if (!I.getType ()->isVoidTy ()) Ids[&I] = id++;
        }
        bool fb = true;
        for (BasicBlock &B : F)
        {
            if (!fb) o << ",\n";
            fb = false;
            o << "[";
            bool fi = true;
            for (Instruction &I : B)
            {
                if (isa<DbgInfoIntrinsic> (I)) continue;
                if (!fi) o << ",";
                fi = false;
                emitInst (I, bb);
            }
            o << "]";
        }
        o << "],\"vars\":{";
        // source names of SSA values / allocas
        std::map<int, std::string> vn;
        for (BasicBlock &B : F) for (Instruction &I : B)
            if (auto *d = dyn_cast<DbgVariableIntrinsic> (&I))
            {
                Value *v = d->getNumVariableLocationOps () ? d->getVariableLocationOp (0) : nullptr;
                if (v && Ids.count (v)) vn[Ids[v]] = d->getVariable ()->getName ().str ();
            }
        bool fv = true;
        for (auto &p : vn)
        {
            if (!fv) o << ",";
            fv = false;
            o << "\"" << p.first << "\":"; jstr (p.second);
        }
        o << "}}";
    }
    o << "},\n\"files\":[";
    for (size_t i = 0; i < Files.size (); i++) { if (i) o << ","; jstr (Files[i]); }
    o << "]}\n";
    return 0;
}
