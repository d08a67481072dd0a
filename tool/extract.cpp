// Fact extractor: parses one translation unit with clang and dumps, for every
// function definition that lives under one of the given roots (template
// instantiations and lambda call operators included), its control-flow graph
// with every expression linearised in evaluation order.  No repository code is
// executed; the output is a JSON file read by the python analyses.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <functional>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::vector<std::string> RecordRoots; // records (not bodies) below these are listed too
static std::string OutPath;

struct Dumper {
   ASTContext& C;
   SourceManager& SM;
   std::map<std::string, int> typeIds;
   std::vector<std::string> typeTab;
   std::map<std::string, int> fileIds;
   std::vector<std::string> fileTab;
   std::map<const Decl*, int> varIds;
   json::Array vars;
   std::map<const FunctionDecl*, int> fnIds;
   json::Array fns;
   std::deque<const FunctionDecl*> work;
   std::set<const FunctionDecl*> done;
   PrintingPolicy PP;

   Dumper(ASTContext& C) : C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
      PP.SuppressTagKeyword = true;
      PP.FullyQualifiedName = true;
      PP.PrintCanonicalTypes = true;
   }

   int type(QualType T) {
      if (T.isNull())
         return -1;
      T = T.getCanonicalType();
      std::string s = T.getAsString(PP);
      auto it = typeIds.find(s);
      if (it != typeIds.end())
         return it->second;
      int id = typeTab.size();
      typeTab.push_back(s);
      typeIds[s] = id;
      return id;
   }
   std::string path(SourceLocation L) {
      L = SM.getExpansionLoc(L);
      PresumedLoc P = SM.getPresumedLoc(L, false);
      if (P.isInvalid())
         return "";
      llvm::SmallString<256> s(P.getFilename());
      SM.getFileManager().makeAbsolutePath(s);
      llvm::sys::path::remove_dots(s, true);
      return std::string(s.str());
   }
   int file(SourceLocation L) {
      std::string s = path(L);
      auto it = fileIds.find(s);
      if (it != fileIds.end())
         return it->second;
      int id = fileTab.size();
      fileTab.push_back(s);
      fileIds[s] = id;
      return id;
   }
   int line(SourceLocation L) {
      return SM.getExpansionLineNumber(L);
   }
   bool inRoots(SourceLocation L) {
      std::string s = path(L);
      for (auto& r : Roots)
         if (s.compare(0, r.size(), r) == 0)
            return true;
      return false;
   }
   bool inRecordRoots(SourceLocation L) {
      std::string s = path(L);
      for (auto& r : RecordRoots)
         if (s.compare(0, r.size(), r) == 0)
            return true;
      return false;
   }
   static const Decl* canonVar(const Decl* D) {
      return D->getCanonicalDecl();
   }
   // literals of an initialiser, in source order
   json::Array lits(const Stmt* S) {
      json::Array a;
      if (!S || (isa<Expr>(S) && cast<Expr>(S)->isValueDependent()))
         return a;
      std::function<void(const Stmt*)> walk = [&](const Stmt* x) {
         if (!x || a.size() > 64)
            return;
         if (auto* I = dyn_cast<InitListExpr>(x))
            if (I->isSemanticForm() && I->getSyntacticForm())
               x = I->getSyntacticForm();
         if (isa<CXXDefaultArgExpr>(x))
            return;
         if (auto* L = dyn_cast<StringLiteral>(x)) {
            a.push_back(L->isOrdinary() ? json::Value(json::isUTF8(L->getString()) ? L->getString().str() : std::string("?")) : json::Value("?"));
            return;
         }
         if (auto* L = dyn_cast<IntegerLiteral>(x)) {
            a.push_back((int64_t)L->getValue().getLimitedValue());
            return;
         }
         if (auto* R = dyn_cast<DeclRefExpr>(x)) {
            if (auto* W = dyn_cast<VarDecl>(R->getDecl()))
               if (W->hasGlobalStorage())
                  a.push_back("@" + W->getQualifiedNameAsString());
            return;
         }
         for (auto* c : x->children())
            walk(c);
      };
      walk(S);
      return a;
   }

   int var(const ValueDecl* D0) {
      const Decl* D = canonVar(D0);
      auto it = varIds.find(D);
      if (it != varIds.end())
         return it->second;
      int id = vars.size();
      varIds[D] = id;
      vars.push_back(nullptr);
      json::Object o;
      o["n"] = D0->getNameAsString();
      o["t"] = type(D0->getType());
      o["f"] = file(D0->getLocation());
      o["l"] = line(D0->getLocation());
      if (auto* V = dyn_cast<VarDecl>(D0)) {
         if (isa<ParmVarDecl>(V))
            o["k"] = "param";
         else if (V->isStaticLocal())
            o["k"] = "static";
         else if (V->hasGlobalStorage())
            o["k"] = "global";
         else
            o["k"] = "local";
         if (V->hasGlobalStorage())
            o["q"] = V->getQualifiedNameAsString();
         if (V->isConstexpr())
            o["ce"] = true;
         if (isa<ParmVarDecl>(V))
            o["pi"] = (int)cast<ParmVarDecl>(V)->getFunctionScopeIndex();
         if (V->hasGlobalStorage())
            if (auto* I = V->getAnyInitializer())
               o["lits"] = lits(I);
         if (V->hasInit() && V->hasGlobalStorage()) {
            // value of constant globals / function pointers
            const Expr* I = V->getInit()->IgnoreParenImpCasts();
            if (auto* R = dyn_cast<DeclRefExpr>(I))
               if (auto* F = dyn_cast<FunctionDecl>(R->getDecl()))
                  o["fninit"] = fn(F);
            if (V->getType()->isPointerType() || V->getType()->isFunctionPointerType()) {
               if (!V->getType()->isDependentType() && !V->getInit()->isValueDependent()) {
                  Expr::EvalResult R;
                  llvm::SmallVector<PartialDiagnosticAt, 4> notes;
                  APValue val;
                  if (V->getInit()->EvaluateAsInitializer(val, C, V, notes, true) && val.isLValue()) {
                     auto B = val.getLValueBase();
                     if (B)
                        if (auto* VD = B.dyn_cast<const ValueDecl*>())
                           if (auto* F = dyn_cast<FunctionDecl>(VD))
                              o["fninit"] = fn(F);
                  }
               }
            }
         }
      } else if (isa<BindingDecl>(D0)) {
         o["k"] = "binding";
         auto* B = cast<BindingDecl>(D0);
         if (B->getDecomposedDecl()) {
            auto* DD = cast<DecompositionDecl>(B->getDecomposedDecl());
            int idx = 0;
            for (auto* b : DD->bindings()) {
               if (b == B)
                  break;
               idx++;
            }
            o["base"] = var(DD);
            o["bi"] = idx;
         }
         if (B->getHoldingVar())
            o["hold"] = var(B->getHoldingVar());
      } else if (isa<FieldDecl>(D0)) {
         o["k"] = "field";
         o["q"] = D0->getQualifiedNameAsString();
      } else if (isa<EnumConstantDecl>(D0)) {
         o["k"] = "enum";
         o["q"] = D0->getQualifiedNameAsString();
      } else {
         o["k"] = D0->getDeclKindName();
      }
      vars[id] = std::move(o);
      return id;
   }
   static const FunctionDecl* canonFn(const FunctionDecl* F) {
      return F->getCanonicalDecl();
   }
   int fn(const FunctionDecl* F0) {
      const FunctionDecl* F = canonFn(F0);
      auto it = fnIds.find(F);
      if (it != fnIds.end())
         return it->second;
      int id = fns.size();
      fnIds[F] = id;
      fns.push_back(nullptr);
      json::Object o;
      o["q"] = F->getQualifiedNameAsString();
      o["n"] = F->getNameAsString();
      {
         std::string s;
         llvm::raw_string_ostream os(s);
         F->getNameForDiagnostic(os, PP, true);
         o["pretty"] = s;
      }
      const FunctionDecl* Def = nullptr;
      bool has = F->hasBody(Def) && Def;
      SourceLocation L = (has ? Def : F)->getLocation();
      o["f"] = file(L);
      o["l"] = line(L);
      bool in = inRoots(L);
      o["in"] = in;
      o["ret"] = type(F->getReturnType());
      json::Array pts, pns;
      const FunctionDecl* S = has ? Def : F;
      for (auto* P : S->parameters()) {
         pts.push_back(type(P->getType()));
         pns.push_back(var(P));
      }
      o["pt"] = std::move(pts);
      // values of default arguments, as far as they are constants
      {
         json::Array pd;
         bool any = false;
         const FunctionDecl* Pat = F->getTemplateInstantiationPattern();
         for (unsigned i = 0; i < S->getNumParams(); i++) {
            const Expr* E = nullptr;
            for (const FunctionDecl* G : {(const FunctionDecl*)F, S, Pat, Pat ? Pat->getCanonicalDecl() : nullptr}) {
               if (E || !G || i >= G->getNumParams())
                  continue;
               auto* P = const_cast<ParmVarDecl*>(G->getParamDecl(i));
               if (P->hasUninstantiatedDefaultArg())
                  E = P->getUninstantiatedDefaultArg();
               else if (P->hasDefaultArg() && !P->hasUnparsedDefaultArg())
                  E = P->getDefaultArg();
            }
            json::Object d;
            if (E) {
               any = true;
               std::string t;
               llvm::raw_string_ostream os(t);
               E->printPretty(os, nullptr, PP);
               d["s"] = json::fixUTF8(os.str());
               Expr::EvalResult R;
               if (!E->isValueDependent() && !E->isTypeDependent() && E->getType()->isIntegralOrEnumerationType() && E->EvaluateAsInt(R, C))
                  d["iv"] = R.Val.getInt().isRepresentableByInt64() ? R.Val.getInt().getExtValue() : (int64_t)R.Val.getInt().getZExtValue();
            }
            pd.push_back(std::move(d));
         }
         if (any)
            o["pd"] = std::move(pd);
      }
      o["p"] = std::move(pns);
      if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
         if (M->isConst())
            o["const"] = true;
         if (M->isStatic())
            o["static"] = true;
         o["cls"] = type(C.getRecordType(M->getParent()));
         o["clsn"] = M->getParent()->getQualifiedNameAsString();
         if (M->getParent()->isLambda())
            o["lambda"] = true;
         if (M->isVirtual()) {
            o["virtual"] = true;
            json::Array ov;
            for (auto* O : M->overridden_methods())
               ov.push_back(fn(O));
            o["overrides"] = std::move(ov);
         }
         switch (M->getRefQualifier()) {
         case RQ_LValue:
            o["rq"] = "&";
            break;
         case RQ_RValue:
            o["rq"] = "&&";
            break;
         default:
            break;
         }
         if (isa<CXXConstructorDecl>(M)) {
            o["ctor"] = cast<CXXConstructorDecl>(M)->isCopyConstructor()   ? "copy"
                        : cast<CXXConstructorDecl>(M)->isMoveConstructor() ? "move"
                                                                           : "other";
         }
         if (isa<CXXDestructorDecl>(M))
            o["dtor"] = true;
      }
      if (F->isDefaulted())
         o["defaulted"] = true;
      if (F->isVariadic())
         o["variadic"] = true;
      if (F->isExternC())
         o["extc"] = true;
      if (F->isImplicit())
         o["implicit"] = true;
      if (F->isNoReturn())
         o["noreturn"] = true;
      if (F->isInlined())
         o["inline"] = true;
      // template pattern location, to group instantiations
      if (const FunctionDecl* P = F->getTemplateInstantiationPattern()) {
         o["pf"] = file(P->getLocation());
         o["pl"] = line(P->getLocation());
      }
      if (auto* args = F->getTemplateSpecializationArgs()) {
         json::Array ta;
         for (auto& a : args->asArray()) {
            std::string s;
            llvm::raw_string_ostream os(s);
            a.print(PP, os, true);
            ta.push_back(s);
         }
         o["targs"] = std::move(ta);
      }
      fns[id] = std::move(o);
      if (has && in && !Def->isDependentContext())
         work.push_back(Def);
      return id;
   }

   // ---- per function
   json::Array* nodes = nullptr;
   std::map<const Stmt*, int> nodeIds;

   int node(const Stmt* S) {
      if (!S)
         return -1;
      auto it = nodeIds.find(S);
      if (it != nodeIds.end())
         return it->second;
      int id = nodes->size();
      nodeIds[S] = id;
      nodes->push_back(nullptr);
      json::Object o;
      o["k"] = S->getStmtClassName();
      SourceLocation L = S->getBeginLoc();
      o["l"] = line(L);
      o["f"] = file(L);
      if (L.isMacroID()) {
         std::string m = Lexer::getImmediateMacroName(L, SM, C.getLangOpts()).str();
         if (!m.empty())
            o["mac"] = m;
      }
      std::vector<const Stmt*> kids;
      bool defaultKids = true;
      if (auto* E = dyn_cast<Expr>(S)) {
         o["t"] = type(E->getType());
         if (E->isLValue())
            o["vc"] = "l";
         else if (E->isXValue())
            o["vc"] = "x";
         if (!E->isValueDependent() && (E->getType()->isIntegralOrEnumerationType()) && E->isPRValue()) {
            Expr::EvalResult R;
            if (E->EvaluateAsInt(R, C))
               o["iv"] = R.Val.getInt().isRepresentableByInt64() ? R.Val.getInt().getExtValue() : (int64_t)R.Val.getInt().getZExtValue();
         }
      }
      if (auto* B = dyn_cast<BinaryOperator>(S)) {
         o["op"] = B->getOpcodeStr().str();
      } else if (auto* U = dyn_cast<UnaryOperator>(S)) {
         o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
         if (U->isPostfix())
            o["post"] = true;
      } else if (auto* R = dyn_cast<DeclRefExpr>(S)) {
         if (auto* F = dyn_cast<FunctionDecl>(R->getDecl()))
            o["fn"] = fn(F);
         else if (auto* V = dyn_cast<ValueDecl>(R->getDecl()))
            o["v"] = var(V);
      } else if (auto* M = dyn_cast<MemberExpr>(S)) {
         o["m"] = M->getMemberDecl()->getNameAsString();
         if (M->isArrow())
            o["arrow"] = true;
         if (auto* F = dyn_cast<FunctionDecl>(M->getMemberDecl()))
            o["fn"] = fn(F);
         else {
            o["v"] = var(M->getMemberDecl());
         }
      } else if (auto* K = dyn_cast<CastExpr>(S)) {
         o["ck"] = K->getCastKindName();
         if (isa<ImplicitCastExpr>(K))
            o["imp"] = true;
         if (auto* F = dyn_cast_or_null<FunctionDecl>(K->getConversionFunction()))
            o["fn"] = fn(F);
      } else if (auto* Lit = dyn_cast<IntegerLiteral>(S)) {
         (void)Lit;
      } else if (auto* Fl = dyn_cast<FloatingLiteral>(S)) {
         o["fv"] = Fl->getValueAsApproximateDouble();
      } else if (auto* Sl = dyn_cast<StringLiteral>(S)) {
         if (Sl->isOrdinary() || Sl->isUTF8()) {
            std::string str = Sl->getString().str();
            o["s"] = json::fixUTF8(str);
         }
      } else if (auto* Cl = dyn_cast<CharacterLiteral>(S)) {
         o["iv"] = (int64_t)Cl->getValue();
      } else if (auto* Call = dyn_cast<CallExpr>(S)) {
         if (auto* F = Call->getDirectCallee())
            o["fn"] = fn(F);
         if (isa<CXXMemberCallExpr>(Call)) {
            o["mc"] = true;
            if (auto* Obj = cast<CXXMemberCallExpr>(Call)->getImplicitObjectArgument())
               o["obj"] = node(Obj);
         }
         if (auto* OC = dyn_cast<CXXOperatorCallExpr>(Call)) {
            o["oop"] = getOperatorSpelling(OC->getOperator());
            if (auto* MD = dyn_cast_or_null<CXXMethodDecl>(Call->getDirectCallee()))
               if (!MD->isStatic())
                  o["omem"] = true;
         }
         json::Array args;
         for (auto* A : Call->arguments())
            args.push_back(node(A));
         o["a"] = std::move(args);
         o["callee"] = node(Call->getCallee());
         kids.push_back(Call->getCallee());
         for (auto* A : Call->arguments())
            kids.push_back(A);
         defaultKids = false;
      } else if (auto* CE = dyn_cast<CXXConstructExpr>(S)) {
         o["fn"] = fn(CE->getConstructor());
         if (CE->isElidable())
            o["elidable"] = true;
         json::Array args;
         for (auto* A : CE->arguments())
            args.push_back(node(A));
         o["a"] = std::move(args);
      } else if (auto* LE = dyn_cast<LambdaExpr>(S)) {
         const CXXMethodDecl* Op = LE->getCallOperator();
         if (Op) {
            if (!Op->isDependentContext() && !LE->isGenericLambda())
               o["fn"] = fn(Op);
            else if (auto* T = LE->getDependentCallOperator()) {
               json::Array sp;
               for (auto* Sp : T->specializations())
                  sp.push_back(fn(Sp));
               o["specs"] = std::move(sp);
            }
         }
         json::Array caps;
         for (auto I = LE->capture_begin(); I != LE->capture_end(); ++I) {
            json::Object c;
            if (I->capturesThis())
               c["this"] = true;
            else if (I->capturesVariable())
               c["v"] = var(I->getCapturedVar());
            c["ref"] = I->getCaptureKind() == LCK_ByRef || I->getCaptureKind() == LCK_This;
            caps.push_back(std::move(c));
         }
         o["caps"] = std::move(caps);
         json::Array inits;
         for (auto I = LE->capture_init_begin(); I != LE->capture_init_end(); ++I) {
            inits.push_back(node(*I));
            kids.push_back(*I);
         }
         o["ci"] = std::move(inits);
         defaultKids = false;
      } else if (auto* DS = dyn_cast<DeclStmt>(S)) {
         json::Array ds;
         for (auto* D : DS->decls()) {
            if (auto* V = dyn_cast<VarDecl>(D)) {
               json::Object d;
               d["v"] = var(V);
               if (V->hasInit()) {
                  d["init"] = node(V->getInit());
                  kids.push_back(V->getInit());
               }
               if (auto* DD = dyn_cast<DecompositionDecl>(V)) {
                  json::Array bs;
                  for (auto* B : DD->bindings()) {
                     json::Object b;
                     b["v"] = var(B);
                     if (B->getBinding())
                        b["e"] = node(B->getBinding());
                     if (auto* H = B->getHoldingVar()) {
                        b["hv"] = var(H);
                        if (H->hasInit())
                           b["hi"] = node(H->getInit());
                     }
                     bs.push_back(std::move(b));
                  }
                  d["bindings"] = std::move(bs);
               }
               ds.push_back(std::move(d));
            }
         }
         o["ds"] = std::move(ds);
         defaultKids = false;
      } else if (auto* T = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
         o["trait"] = (int)T->getKind();
         o["at"] = type(T->getTypeOfArgument());
         defaultKids = false;
      } else if (auto* D = dyn_cast<CXXDefaultArgExpr>(S)) {
         o["sub"] = node(D->getExpr());
         kids.push_back(D->getExpr());
         defaultKids = false;
      } else if (auto* D = dyn_cast<CXXDefaultInitExpr>(S)) {
         o["sub"] = node(D->getExpr());
         kids.push_back(D->getExpr());
         defaultKids = false;
      } else if (auto* N = dyn_cast<CXXNewExpr>(S)) {
         o["placement"] = (int)N->getNumPlacementArgs();
      } else if (auto* I = dyn_cast<InitListExpr>(S)) {
         if (I->isSemanticForm() == false && I->getSemanticForm()) {
            o["sem"] = node(I->getSemanticForm());
         }
         if (I->getArrayFiller())
            o["filler"] = node(I->getArrayFiller());
      } else if (auto* OV = dyn_cast<OpaqueValueExpr>(S)) {
         if (OV->getSourceExpr())
            kids.push_back(OV->getSourceExpr());
         defaultKids = false;
      } else if (auto* SC = dyn_cast<CaseStmt>(S)) {
         Expr::EvalResult R;
         if (SC->getLHS() && SC->getLHS()->EvaluateAsInt(R, C))
            o["iv"] = R.Val.getInt().isRepresentableByInt64() ? R.Val.getInt().getExtValue() : (int64_t)R.Val.getInt().getZExtValue();
         defaultKids = false;
      } else if (auto* TL = dyn_cast<CXXFoldExpr>(S)) {
         (void)TL;
      }
      if (auto* SN = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) {
         kids.push_back(SN->getReplacement());
         defaultKids = false;
      }
      json::Array ks;
      if (defaultKids)
         for (auto* K : S->children())
            if (K)
               kids.push_back(K);
      for (auto* K : kids)
         ks.push_back(node(K));
      o["c"] = std::move(ks);
      (*nodes)[id] = std::move(o);
      return id;
   }

   json::Array outFns;

   void dumpFunction(const FunctionDecl* F) {
      json::Object o;
      o["id"] = fn(F);
      Stmt* Body = F->getBody();
      if (!Body)
         return;
      CFG::BuildOptions BO;
      BO.AddImplicitDtors = true;
      BO.AddTemporaryDtors = true;
      BO.AddInitializers = true;
      BO.AddCXXDefaultInitExprInCtors = true;
      BO.AddCXXDefaultInitExprInAggregates = true;
      BO.AddCXXNewAllocator = false;
      BO.PruneTriviallyFalseEdges = true;
      BO.setAllAlwaysAdd();
      std::unique_ptr<CFG> G = CFG::buildCFG(F, Body, &C, BO);
      json::Array ns;
      nodes = &ns;
      nodeIds.clear();
      if (!G) {
         o["nocfg"] = true;
      } else {
         json::Array bs;
         for (const CFGBlock* B : *G) {
            json::Object b;
            b["id"] = (int)B->getBlockID();
            json::Array es;
            for (const CFGElement& E : *B) {
               switch (E.getKind()) {
               case CFGElement::Statement:
               case CFGElement::Constructor:
               case CFGElement::CXXRecordTypedCall: {
                  es.push_back(node(E.castAs<CFGStmt>().getStmt()));
                  break;
               }
               case CFGElement::Initializer: {
                  const CXXCtorInitializer* I = E.castAs<CFGInitializer>().getInitializer();
                  json::Object x;
                  x["k"] = "init";
                  x["init"] = node(I->getInit());
                  x["l"] = line(I->getSourceLocation());
                  if (I->isAnyMemberInitializer()) {
                     x["m"] = I->getAnyMember()->getNameAsString();
                     x["v"] = var(I->getAnyMember());
                  } else if (I->isBaseInitializer())
                     x["base"] = type(QualType(I->getBaseClass(), 0));
                  else if (I->isDelegatingInitializer())
                     x["deleg"] = true;
                  es.push_back(std::move(x));
                  break;
               }
               case CFGElement::AutomaticObjectDtor: {
                  auto D = E.castAs<CFGAutomaticObjDtor>();
                  json::Object x;
                  x["k"] = "dtor";
                  x["v"] = var(D.getVarDecl());
                  x["l"] = line(D.getTriggerStmt() ? D.getTriggerStmt()->getEndLoc() : D.getVarDecl()->getLocation());
                  es.push_back(std::move(x));
                  break;
               }
               case CFGElement::TemporaryDtor: {
                  auto D = E.castAs<CFGTemporaryDtor>();
                  json::Object x;
                  x["k"] = "tdtor";
                  x["e"] = node(D.getBindTemporaryExpr());
                  es.push_back(std::move(x));
                  break;
               }
               default:
                  break;
               }
            }
            b["e"] = std::move(es);
            if (const Stmt* T = B->getTerminatorStmt()) {
               b["term"] = T->getStmtClassName();
               b["tl"] = line(T->getBeginLoc());
               b["tnode"] = -1;
               if (B->getTerminator().isTemporaryDtorsBranch())
                  b["tdbranch"] = true;
               if (auto* BO2 = dyn_cast<BinaryOperator>(T))
                  b["top"] = BO2->getOpcodeStr().str();
               if (const Stmt* Cnd = B->getTerminatorCondition(true))
                  b["cond"] = node(Cnd);
               if (const Expr* Last = B->getLastCondition())
                  b["lcond"] = node(Last);
               if (auto* IS = dyn_cast<IfStmt>(T))
                  if (IS->isConstexpr())
                     b["cexpr"] = true;
            }
            if (const Stmt* L = B->getLabel()) {
               b["label"] = L->getStmtClassName();
               if (auto* CS = dyn_cast<CaseStmt>(L))
                  b["case"] = node(CS);
            }
            if (B->hasNoReturnElement())
               b["nr"] = true;
            json::Array ss;
            for (auto I = B->succ_begin(); I != B->succ_end(); ++I) {
               if (const CFGBlock* T = I->getReachableBlock())
                  ss.push_back((int)T->getBlockID());
               else
                  ss.push_back(-1);
            }
            b["s"] = std::move(ss);
            bs.push_back(std::move(b));
         }
         o["b"] = std::move(bs);
         o["entry"] = (int)G->getEntry().getBlockID();
         o["exit"] = (int)G->getExit().getBlockID();
      }
      if (auto* Ctor = dyn_cast<CXXConstructorDecl>(F)) {
         (void)Ctor;
      }
      o["n"] = std::move(ns);
      nodes = nullptr;
      outFns.push_back(std::move(o));
   }

   void drain() {
      while (!work.empty()) {
         const FunctionDecl* F = work.front();
         work.pop_front();
         if (!done.insert(F->getCanonicalDecl()).second)
            continue;
         dumpFunction(F);
      }
   }
};

// Namespace-scope declarations (for ODR rule): functions and variables declared in roots.
struct Visitor : RecursiveASTVisitor<Visitor> {
   Dumper& D;
   json::Array decls;
   json::Array recs;
   json::Array tmpls;
   Visitor(Dumper& D) : D(D) {}
   bool shouldVisitTemplateInstantiations() const {
      return true;
   }
   bool shouldVisitImplicitCode() const {
      return false;
   }
   bool VisitFunctionDecl(FunctionDecl* F) {
      if (!D.inRoots(F->getLocation()))
         return true;
      if (F->isThisDeclarationADefinition() && !F->isDependentContext()) {
         int id = D.fn(F);
         json::Object o;
         o["fn"] = id;
         o["kind"] = "function";
         o["q"] = F->getQualifiedNameAsString();
         o["f"] = D.file(F->getLocation());
         o["l"] = D.line(F->getLocation());
         o["inline"] = F->isInlined() || F->isConstexpr();
         o["extern_linkage"] = F->hasExternalFormalLinkage();
         auto TK = F->getTemplateSpecializationKind();
         o["tsk"] = (int)TK;
         o["lambda"] = isa<CXXMethodDecl>(F) && cast<CXXMethodDecl>(F)->getParent()->isLambda();
         decls.push_back(std::move(o));
      }
      if (F->isThisDeclarationADefinition() && F->isDependentContext()) {
         json::Object o;
         o["q"] = F->getQualifiedNameAsString();
         o["f"] = D.file(F->getLocation());
         o["l"] = D.line(F->getLocation());
         tmpls.push_back(std::move(o));
      }
      return true;
   }
   bool VisitVarDecl(VarDecl* V) {
      if (!D.inRoots(V->getLocation()) || isa<ParmVarDecl>(V))
         return true;
      if (V->hasGlobalStorage() && !V->getDeclContext()->isDependentContext()) {
         json::Object o;
         o["kind"] = "var";
         o["q"] = V->getQualifiedNameAsString();
         o["f"] = D.file(V->getLocation());
         o["l"] = D.line(V->getLocation());
         o["inline"] = V->isInline() || V->isConstexpr();
         o["extern_linkage"] = V->hasExternalFormalLinkage();
         o["visible"] = V->isExternallyVisible();
         o["def"] = V->isThisDeclarationADefinition() == VarDecl::Definition;
         o["local"] = V->isStaticLocal();
         o["tsk"] = (int)V->getTemplateSpecializationKind();
         o["const"] = V->getType().isConstQualified();
         o["t"] = D.type(V->getType());
         o["tls"] = V->getTLSKind() != VarDecl::TLS_None;
         if (V->isStaticLocal()) {
            const DeclContext* DC = V->getParentFunctionOrMethod();
            if (auto* FD = dyn_cast_or_null<FunctionDecl>(DC))
               o["infn"] = D.fn(FD);
         }
         D.var(V);
         decls.push_back(std::move(o));
      }
      return true;
   }
   bool VisitCXXRecordDecl(CXXRecordDecl* R) {
      if (!R->isThisDeclarationADefinition() || R->isDependentContext() || !(D.inRoots(R->getLocation()) || D.inRecordRoots(R->getLocation())))
         return true;
      if (R->isLambda())
         return true;
      json::Object o;
      o["t"] = D.type(D.C.getRecordType(R));
      o["q"] = R->getQualifiedNameAsString();
      o["f"] = D.file(R->getLocation());
      o["l"] = D.line(R->getLocation());
      json::Array fs, bs;
      for (auto* F : R->fields()) {
         json::Object f;
         f["n"] = F->getNameAsString();
         f["t"] = D.type(F->getType());
         f["v"] = D.var(F);
         f["l"] = D.line(F->getLocation());
         f["init"] = F->hasInClassInitializer();
         f["mut"] = F->isMutable();
         if (F->hasInClassInitializer() && F->getInClassInitializer())
            f["lits"] = D.lits(F->getInClassInitializer());
         fs.push_back(std::move(f));
      }
      for (auto& B : R->bases())
         bs.push_back(D.type(B.getType()));
      o["fields"] = std::move(fs);
      o["bases"] = std::move(bs);
      json::Array ms;
      for (auto* M : R->methods()) {
         json::Object m;
         m["n"] = M->getNameAsString();
         m["fn"] = D.fn(M);
         m["deleted"] = M->isDeleted();
         m["defaulted"] = M->isDefaulted();
         m["access"] = (int)M->getAccess();
         ms.push_back(std::move(m));
      }
      o["methods"] = std::move(ms);
      recs.push_back(std::move(o));
      return true;
   }
};

struct Consumer : ASTConsumer {
   void HandleTranslationUnit(ASTContext& C) override {
      Dumper D(C);
      Visitor V(D);
      V.TraverseDecl(C.getTranslationUnitDecl());
      D.drain();
      json::Object top;
      json::Array tt, ft;
      for (auto& s : D.typeTab)
         tt.push_back(s);
      for (auto& s : D.fileTab)
         ft.push_back(s);
      top["types"] = std::move(tt);
      top["files"] = std::move(ft);
      top["vars"] = std::move(D.vars);
      top["fns"] = std::move(D.fns);
      top["bodies"] = std::move(D.outFns);
      top["decls"] = std::move(V.decls);
      top["records"] = std::move(V.recs);
      top["templates"] = std::move(V.tmpls);
      std::error_code EC;
      llvm::raw_fd_ostream os(OutPath, EC);
      os << json::Value(std::move(top));
   }
};
struct Action : ASTFrontendAction {
   std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef) override {
      return std::make_unique<Consumer>();
   }
};
struct Factory : tooling::FrontendActionFactory {
   std::unique_ptr<FrontendAction> create() override {
      return std::make_unique<Action>();
   }
};

// usage: extract OUT.json SOURCE ROOT... -- compiler flags
int main(int argc, const char** argv) {
   std::vector<std::string> flags;
   std::vector<std::string> pos;
   bool after = false;
   for (int i = 1; i < argc; i++) {
      std::string a = argv[i];
      if (!after && a == "--") {
         after = true;
         continue;
      }
      (after ? flags : pos).push_back(a);
   }
   if (pos.size() < 3)
      return 64;
   OutPath = pos[0];
   for (size_t i = 2; i < pos.size(); i++)
      if (pos[i].compare(0, 9, "+records:") == 0)
         RecordRoots.push_back(pos[i].substr(9));
      else
         Roots.push_back(pos[i]);
   flags.push_back("-resource-dir=/usr/lib/llvm-18/lib/clang/18");
   flags.push_back("-Wno-everything");
   flags.push_back("-ferror-limit=20");
   tooling::FixedCompilationDatabase DB(".", flags);
   tooling::ClangTool T(DB, {pos[1]});
   Factory F;
   return T.run(&F) ? 3 : 0;
}
