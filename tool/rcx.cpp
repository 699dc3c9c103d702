// rcx: exports the resolved clang AST (template instantiations, implicit
// members, implicit conversions and lambda closures included) of every function
// that lives under one of the given roots, as JSON.  No analysis happens here;
// the rules live in /verif/lib.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;

namespace {

struct ErrFinder : RecursiveASTVisitor<ErrFinder> {
  bool Found = false;
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitExpr(Expr *E) {
    if (E->containsErrors() || E->isTypeDependent() || E->isValueDependent())
      Found = true;
    return !Found;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->isInvalidDecl() || V->getType()->isDependentType()) Found = true;
    return !Found;
  }
};

class Exporter {
public:
  Exporter(ASTContext &Ctx, llvm::raw_ostream &OS)
      : Ctx(Ctx), SM(Ctx.getSourceManager()), J(OS), PP(Ctx.getLangOpts()),
        Mangle(Ctx.createMangleContext()) {
    PP.FullyQualifiedName = true;
    PP.SuppressUnwrittenScope = true;
    PP.adjustForCPlusPlus();
  }

  // ---- locations
  std::string fileOf(SourceLocation L) {
    if (L.isInvalid()) return "";
    SourceLocation E = SM.getExpansionLoc(L);
    auto F = SM.getFilename(E);
    llvm::SmallString<256> P(F);
    if (auto FE = SM.getFileEntryRefForID(SM.getFileID(E))) {
      llvm::StringRef R = FE->getFileEntry().tryGetRealPathName();
      if (!R.empty()) P = R;
    }
    return std::string(P.str());
  }
  unsigned lineOf(SourceLocation L) {
    return L.isInvalid() ? 0 : SM.getExpansionLineNumber(L);
  }
  std::map<FileID, bool> InRootCache;
  bool inRoots(SourceLocation L) {
    if (L.isInvalid()) return false;
    FileID F = SM.getFileID(SM.getExpansionLoc(L));
    auto It = InRootCache.find(F);
    if (It != InRootCache.end()) return It->second;
    std::string N = fileOf(L);
    bool R = false;
    for (auto &Rt : Roots)
      if (llvm::StringRef(N).starts_with(Rt)) R = true;
    InRootCache[F] = R;
    return R;
  }
  int fileId(SourceLocation L) {
    std::string F = fileOf(L);
    auto It = FileIds.find(F);
    if (It != FileIds.end()) return It->second;
    int Id = FileIds.size();
    FileIds[F] = Id;
    return Id;
  }

  // ---- types
  int typeId(QualType T) {
    if (T.isNull()) return -1;
    T = T.getCanonicalType();
    void *K = T.getAsOpaquePtr();
    auto It = TypeIds.find(K);
    if (It != TypeIds.end()) return It->second;
    int Id = TypeIds.size();
    TypeIds[K] = Id;
    TypeQ.push_back(T);
    return Id;
  }

  // ---- decls
  int declId(const Decl *D) {
    if (!D) return -1;
    D = D->getCanonicalDecl();
    auto It = DeclIds.find(D);
    if (It != DeclIds.end()) return It->second;
    int Id = DeclIds.size();
    DeclIds[D] = Id;
    DeclQ.push_back(D);
    return Id;
  }

  void addFunction(const FunctionDecl *FD) { declId(FD); }

  static bool dependent(const Decl *D) {
    if (auto *DC = dyn_cast<DeclContext>(D))
      if (DC->isDependentContext()) return true;
    return D->getDeclContext() && D->getDeclContext()->isDependentContext();
  }

  void run() {
    J.objectBegin();
    J.attributeArray("decls", [&] {
      while (!DeclQ.empty()) {
        const Decl *D = DeclQ.front();
        DeclQ.pop_front();
        emitDecl(D);
      }
    });
    J.attributeArray("types", [&] {
      // typeId() may append while emitting
      for (size_t I = 0; I < TypeQ.size(); ++I) emitType(I, TypeQ[I]);
    });
    // types may have queued record decls
    J.attributeArray("decls2", [&] {
      while (!DeclQ.empty()) {
        const Decl *D = DeclQ.front();
        DeclQ.pop_front();
        emitDecl(D);
      }
    });
    J.attributeArray("types2", [&] {
      for (size_t I = EmittedTypes; I < TypeQ.size(); ++I) {
        emitType(I, TypeQ[I]);
      }
    });
    J.attributeArray("patterns", [&] {
      for (auto &P : Patterns) J.value(P);
    });
    J.attributeArray("files", [&] {
      std::vector<std::string> V(FileIds.size());
      for (auto &P : FileIds) V[P.second] = P.first;
      for (auto &S : V) J.value(S);
    });
    J.objectEnd();
  }
  std::set<std::string> Patterns;

private:
  ASTContext &Ctx;
  SourceManager &SM;
  json::OStream J;
  PrintingPolicy PP;
  std::unique_ptr<MangleContext> Mangle;
  std::map<std::string, int> FileIds;
  std::map<void *, int> TypeIds;
  std::vector<QualType> TypeQ;
  size_t EmittedTypes = 0;
  std::map<const Decl *, int> DeclIds;
  std::deque<const Decl *> DeclQ;

  std::string qname(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    D->printQualifiedName(OS, PP);
    return S;
  }

  void emitTArgs(const TemplateArgumentList *L) {
    J.attributeArray("targs", [&] { for (auto &A : L->asArray()) emitTArg(A); });
  }
  void emitTArg(const TemplateArgument &A) {
    switch (A.getKind()) {
    case TemplateArgument::Type:
      J.value(typeId(A.getAsType()));
      break;
    case TemplateArgument::Integral:
      J.object([&] { J.attribute("int", A.getAsIntegral().getExtValue()); });
      break;
    case TemplateArgument::Pack:
      J.array([&] { for (auto &E : A.pack_elements()) emitTArg(E); });
      break;
    case TemplateArgument::Template:
      J.object([&] {
        J.attribute("tmpl", qname(A.getAsTemplate().getAsTemplateDecl()));
      });
      break;
    case TemplateArgument::Declaration:
      J.object([&] { J.attribute("decl", declId(A.getAsDecl())); });
      break;
    default:
      J.value(nullptr);
    }
  }

  void emitType(size_t Id, QualType T) {
    EmittedTypes = Id + 1;
    J.object([&] {
      J.attribute("id", (int64_t)Id);
      std::string S = T.getAsString(PP);
      J.attribute("s", S);
      if (T.isConstQualified()) J.attribute("const", true);
      if (T.isVolatileQualified()) J.attribute("vol", true);
      const Type *P = T.getTypePtr();
      if (auto *X = dyn_cast<PointerType>(P)) {
        J.attribute("k", "ptr");
        J.attribute("to", typeId(X->getPointeeType()));
      } else if (auto *X = dyn_cast<LValueReferenceType>(P)) {
        J.attribute("k", "lref");
        J.attribute("to", typeId(X->getPointeeType()));
      } else if (auto *X = dyn_cast<RValueReferenceType>(P)) {
        J.attribute("k", "rref");
        J.attribute("to", typeId(X->getPointeeType()));
      } else if (auto *X = dyn_cast<MemberPointerType>(P)) {
        J.attribute("k", "memptr");
        J.attribute("to", typeId(X->getPointeeType()));
      } else if (auto *X = dyn_cast<ArrayType>(P)) {
        J.attribute("k", "array");
        J.attribute("to", typeId(X->getElementType()));
        if (auto *CA = dyn_cast<ConstantArrayType>(P))
          J.attribute("n", (int64_t)CA->getSize().getZExtValue());
      } else if (auto *X = dyn_cast<FunctionProtoType>(P)) {
        J.attribute("k", "func");
        J.attribute("ret", typeId(X->getReturnType()));
        J.attributeArray("params", [&] {
          for (auto Q : X->param_types()) J.value(typeId(Q));
        });
      } else if (auto *X = dyn_cast<RecordType>(P)) {
        J.attribute("k", "rec");
        J.attribute("rec", declId(X->getDecl()));
      } else if (auto *X = dyn_cast<EnumType>(P)) {
        J.attribute("k", "enum");
        J.attribute("d", declId(X->getDecl()));
      } else if (auto *X = dyn_cast<BuiltinType>(P)) {
        J.attribute("k", "builtin");
        if (X->isInteger()) {
          J.attribute("int", true);
          J.attribute("signed", X->isSignedInteger());
          J.attribute("bits", (int64_t)Ctx.getTypeSize(T));
        } else if (X->isFloatingPoint())
          J.attribute("float", true);
        else if (X->getKind() == BuiltinType::Void)
          J.attribute("void", true);
      } else {
        J.attribute("k", std::string("other:") + P->getTypeClassName());
      }
    });
  }

  void emitDecl(const Decl *D) {
    J.object([&] {
      J.attribute("id", DeclIds[D->getCanonicalDecl()]);
      if (D->getLocation().isValid()) {
        J.attribute("f", fileId(D->getLocation()));
        J.attribute("l", lineOf(D->getLocation()));
      }
      if (auto *ND = dyn_cast<NamedDecl>(D)) {
        J.attribute("n", ND->getNameAsString());
        J.attribute("q", qname(ND));
      }
      if (D->isImplicit()) J.attribute("implicit", true);
      if (auto *FD = dyn_cast<FunctionDecl>(D)) emitFunction(FD);
      else if (auto *VD = dyn_cast<VarDecl>(D)) emitVar(VD);
      else if (auto *F = dyn_cast<FieldDecl>(D)) {
        J.attribute("k", "Field");
        J.attribute("t", typeId(F->getType()));
        J.attribute("rec", declId(F->getParent()));
        J.attribute("idx", (int64_t)F->getFieldIndex());
        if (F->isMutable()) J.attribute("mutable", true);
        if (F->hasInClassInitializer() && inRoots(F->getLocation()))
          if (auto *E = F->getInClassInitializer()) {
            J.attributeBegin("init");
            emitStmt(E);
            J.attributeEnd();
          }
      } else if (auto *R = dyn_cast<CXXRecordDecl>(D)) emitRecord(R);
      else if (auto *E = dyn_cast<EnumConstantDecl>(D)) {
        J.attribute("k", "EnumConst");
        J.attribute("v", E->getInitVal().getExtValue());
        J.attribute("enum", declId(cast<Decl>(E->getDeclContext())));
      } else if (auto *E = dyn_cast<EnumDecl>(D)) {
        J.attribute("k", "Enum");
        J.attributeArray("consts", [&] {
          for (auto *C : E->enumerators()) {
            J.object([&] {
              J.attribute("n", C->getNameAsString());
              J.attribute("v", C->getInitVal().getExtValue());
              J.attribute("id", declId(C));
            });
          }
        });
      } else
        J.attribute("k", std::string("other:") + D->getDeclKindName());
    });
  }

  void emitVar(const VarDecl *V0) {
    const VarDecl *V = V0;
    if (auto *Def = V0->getDefinition()) V = Def;
    J.attribute("k", isa<ParmVarDecl>(V) ? "Parm" : "Var");
    J.attribute("t", typeId(V->getType()));
    const char *St = "local";
    if (V->getTLSKind() != VarDecl::TLS_None) St = "thread";
    else if (V->isStaticLocal()) St = "static_local";
    else if (V->isStaticDataMember()) St = "static_member";
    else if (V->hasGlobalStorage()) St = "global";
    J.attribute("st", St);
    if (V->isConstexpr()) J.attribute("constexpr", true);
    if (auto *P = dyn_cast<ParmVarDecl>(V))
      J.attribute("pi", (int64_t)P->getFunctionScopeIndex());
    if (auto *F = dyn_cast_or_null<FunctionDecl>(
            dyn_cast<Decl>(V->getDeclContext())))
      J.attribute("fn", declId(F));
    if (V->hasGlobalStorage() && inRoots(V->getLocation()) &&
        !dependent(V) && V->getInit()) {
      J.attributeBegin("init");
      emitStmt(V->getInit());
      J.attributeEnd();
    }
  }

  void emitRecord(const CXXRecordDecl *R0) {
    const CXXRecordDecl *R = R0;
    if (auto *Def = R0->getDefinition()) R = Def;
    J.attribute("k", "Record");
    J.attribute("inroot", inRoots(R->getLocation()));
    if (R->isLambda()) {
      J.attribute("lambda", true);
      if (auto *Op = R->getLambdaCallOperator())
        if (!Op->isDependentContext()) J.attribute("op", declId(Op));
    }
    if (R->isUnion()) J.attribute("union", true);
    if (auto *P = dyn_cast_or_null<FunctionDecl>(
            dyn_cast<Decl>(R->getDeclContext())))
      J.attribute("infn", declId(P));
    else if (auto *P = dyn_cast_or_null<CXXRecordDecl>(
                 dyn_cast<Decl>(R->getDeclContext())))
      if (!P->isDependentContext()) J.attribute("inrec", declId(P));
    if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
      J.attribute("tmpl", qname(S->getSpecializedTemplate()));
      emitTArgs(&S->getTemplateArgs());
    }
    if (!R->hasDefinition()) return;
    // Contents of system classes other than fields are not needed.
    J.attributeArray("fields", [&] {
      for (auto *F : R->fields()) J.value(declId(F));
    });
    J.attributeArray("bases", [&] {
      for (auto &B : R->bases()) J.value(typeId(B.getType()));
    });
    if (R->isPolymorphic()) J.attribute("poly", true);
    if (R->isAbstract()) J.attribute("abstract", true);
    if (R->hasTrivialDestructor()) J.attribute("trivdtor", true);
    if (R->isTriviallyCopyable()) J.attribute("trivcopy", true);
    if (R->hasUserDeclaredCopyConstructor()) J.attribute("ucopy", true);
    if (R->hasUserDeclaredCopyAssignment()) J.attribute("ucopyassign", true);
    if (R->hasUserDeclaredDestructor()) J.attribute("udtor", true);
    if (inRoots(R->getLocation()) || R->isLambda()) {
      if (auto *DD = R->getDestructor()) J.attribute("dtor", declId(DD));
      J.attributeArray("methods", [&] {
        for (auto *M : R->methods())
          if (!M->isDependentContext() && !M->getDescribedFunctionTemplate())
            J.value(declId(M));
      });
    }
  }

  void emitFunction(const FunctionDecl *FD) {
    const char *K = "Function";
    if (isa<CXXConstructorDecl>(FD)) K = "Ctor";
    else if (isa<CXXDestructorDecl>(FD)) K = "Dtor";
    else if (isa<CXXConversionDecl>(FD)) K = "Conv";
    else if (isa<CXXMethodDecl>(FD)) K = "Method";
    J.attribute("k", K);
    J.attribute("ret", typeId(FD->getReturnType()));
    J.attribute("ft", typeId(FD->getType()));
    bool Dep = dependent(FD);
    const FunctionDecl *Def = nullptr;
    bool HasBody = !Dep && FD->isDefined(Def);
    const FunctionDecl *PD = HasBody && Def ? Def : FD;
    J.attributeArray("params", [&] {
      for (auto *P : PD->parameters()) {
        J.value(declId(P));
      }
    });
    J.attribute("inroot", inRoots(FD->getLocation()));
    if (auto *M = dyn_cast<CXXMethodDecl>(FD)) {
      J.attribute("rec", declId(M->getParent()));
      if (M->isVirtual()) J.attribute("virt", true);
      if (M->isPureVirtual()) J.attribute("pure", true);
      if (M->isConst()) J.attribute("constm", true);
      if (M->isStatic()) J.attribute("static", true);
      if (M->isCopyAssignmentOperator()) J.attribute("copyassign", true);
      if (M->isMoveAssignmentOperator()) J.attribute("moveassign", true);
      if (M->size_overridden_methods()) {
        J.attributeArray("overrides", [&] {
          for (auto *O : M->overridden_methods()) J.value(declId(O));
        });
      }
      if (auto *C = dyn_cast<CXXConstructorDecl>(M)) {
        if (C->isCopyConstructor()) J.attribute("copyctor", true);
        if (C->isMoveConstructor()) J.attribute("movector", true);
        if (C->isDefaultConstructor()) J.attribute("defctor", true);
      }
    }
    if (auto *FPT = FD->getType()->getAs<FunctionProtoType>()) {
      auto EST = FPT->getExceptionSpecType();
      if (EST != EST_Unevaluated && EST != EST_Uninstantiated &&
          EST != EST_Unparsed && EST != EST_DependentNoexcept)
        J.attribute("nothrow", FPT->canThrow() == CT_Cannot);
      else
        J.attribute("nothrow_unk", true);
      if (EST == EST_BasicNoexcept || EST == EST_NoexceptTrue ||
          EST == EST_NoexceptFalse || EST == EST_DependentNoexcept)
        J.attribute("nx_written", true);
    }
    if (FD->isDefaulted()) J.attribute("defaulted", true);
    if (FD->isDeleted()) J.attribute("deleted", true);
    if (FD->isTrivial()) J.attribute("trivial", true);
    if (FD->isNoReturn()) J.attribute("noreturn", true);
    if (FD->isExternC()) J.attribute("externc", true);
    if (Dep) J.attribute("dependent", true);
    if (FD->isOverloadedOperator())
      J.attribute("oo", std::string(getOperatorSpelling(FD->getOverloadedOperator())));
    if (auto *Pat = FD->getTemplateInstantiationPattern()) {
      J.attribute("pat", fileOf(Pat->getLocation()) + ":" +
                             std::to_string(lineOf(Pat->getLocation())));
    }
    if (auto *TA = FD->getTemplateSpecializationArgs()) emitTArgs(TA);
    if (!Dep && !isa<CXXDeductionGuideDecl>(FD) && FD->hasExternalFormalLinkage()) {
      std::string S;
      llvm::raw_string_ostream OS(S);
      if (Mangle->shouldMangleDeclName(FD)) {
        if (auto *C = dyn_cast<CXXConstructorDecl>(FD))
          Mangle->mangleName(GlobalDecl(C, Ctor_Complete), OS);
        else if (auto *C = dyn_cast<CXXDestructorDecl>(FD))
          Mangle->mangleName(GlobalDecl(C, Dtor_Complete), OS);
        else
          Mangle->mangleName(GlobalDecl(FD), OS);
      } else
        OS << FD->getName();
      OS.flush();
      J.attribute("m", S);
    }
    if (!HasBody || !Def) return;
    if (!inRoots(Def->getLocation())) return;
    if (Def->isDeleted() || Def->isDefaulted() && !Def->getBody()) {
      // Defaulted but never odr-used: no body.
      if (!isa<CXXConstructorDecl>(Def)) return;
    }
    if (Def->isInvalidDecl()) {
      J.attribute("errbody", true);
      return;
    }
    if (auto *C = dyn_cast<CXXConstructorDecl>(Def)) {
      J.attributeArray("inits", [&] {
        for (auto *I : C->inits()) {
          J.object([&] {
            if (I->isBaseInitializer()) {
              J.attribute("base", typeId(QualType(I->getBaseClass(), 0)));
            } else if (I->isDelegatingInitializer()) {
              J.attribute("deleg", true);
            } else if (I->getAnyMember())
              J.attribute("field", declId(I->getAnyMember()));
            if (I->isWritten()) J.attribute("written", true);
            J.attributeBegin("e");
            emitStmt(I->getInit());
            J.attributeEnd();
          });
        }
      });
    }
    if (auto *B = Def->getBody()) {
      ErrFinder EF;
      EF.TraverseStmt(const_cast<Stmt *>(B));
      if (EF.Found) {
        J.attribute("errbody", true);
        return;
      }
      J.attribute("bf", fileId(Def->getLocation()));
      J.attribute("bl", lineOf(Def->getLocation()));
      J.attribute("el", lineOf(Def->getEndLoc()));
      J.attributeBegin("body");
      emitStmt(B);
      J.attributeEnd();
    }
  }

  void child(const Stmt *S) { emitStmt(S); }
  void attrStmt(const char *N, const Stmt *S) {
    if (!S) return;
    J.attributeBegin(N);
    emitStmt(S);
    J.attributeEnd();
  }

  void emitVarInit(const VarDecl *V) {
    J.object([&] {
      J.attribute("d", declId(V));
      if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
        J.attributeArray("bindings", [&] {
          for (auto *B : DD->bindings()) J.value(declId(B));
        });
      }
      if (auto *I = V->getInit()) {
        attrStmt("init", I);
      }
      // destructor run at scope exit
      if (!V->isStaticLocal()) {
        QualType T = V->getType();
        if (auto *R = T->getAsCXXRecordDecl())
          if (R->hasDefinition() && !R->hasTrivialDestructor())
            if (auto *DD = R->getDestructor())
              J.attribute("dtor", declId(DD));
      }
    });
  }

  void emitStmt(const Stmt *S) {
    if (!S) {
      J.value(nullptr);
      return;
    }
    // Transparent nodes
    if (auto *X = dyn_cast<ParenExpr>(S)) return emitStmt(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(S))
      return emitStmt(X->getReplacement());
    if (auto *X = dyn_cast<FullExpr>(S)) {
      if (isa<ConstantExpr>(S)) return emitStmt(X->getSubExpr());
    }
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(S)) return emitStmt(X->getExpr());
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(S)) return emitStmt(X->getExpr());
    if (auto *X = dyn_cast<OpaqueValueExpr>(S))
      if (X->getSourceExpr()) return emitStmt(X->getSourceExpr());
    if (auto *X = dyn_cast<AttributedStmt>(S)) return emitStmt(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(S)) return emitStmt(X->getSubStmt());

    J.object([&] {
      J.attribute("k", S->getStmtClassName());
      SourceLocation L = S->getBeginLoc();
      if (auto *CE = dyn_cast<CXXMemberCallExpr>(S)) L = CE->getExprLoc();
      if (L.isValid()) {
        J.attribute("l", lineOf(L));
        J.attribute("f", fileId(L));
      }
      if (auto *E = dyn_cast<Expr>(S)) {
        J.attribute("t", typeId(E->getType()));
        J.attribute("vk", E->isLValue() ? "l" : E->isXValue() ? "x" : "pr");
        if (!E->isValueDependent() && !E->isTypeDependent() &&
            E->getType()->isIntegralOrEnumerationType() &&
            !isa<IntegerLiteral>(E) && !E->isGLValue()) {
          Expr::EvalResult R;
          if (E->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects))
            J.attribute("cv", toStr(R.Val.getInt()));
        }
      }
      bool Children = true;
      emitExtra(S, Children);
      if (Children)
        J.attributeArray("c", [&] {
          for (auto *C : S->children()) child(C);
        });
    });
  }

  std::string toStr(const llvm::APSInt &I) {
    llvm::SmallString<32> B;
    I.toString(B, 10);
    return std::string(B.str());
  }

  void emitExtra(const Stmt *S, bool &Children) {
    if (auto *X = dyn_cast<DeclRefExpr>(S)) {
      J.attribute("d", declId(X->getDecl()));
      if (X->refersToEnclosingVariableOrCapture()) J.attribute("cap", true);
      Children = false;
    } else if (auto *X = dyn_cast<MemberExpr>(S)) {
      J.attribute("d", declId(X->getMemberDecl()));
      if (X->isArrow()) J.attribute("arrow", true);
      if (X->hasQualifier()) J.attribute("qual", true);
    } else if (auto *X = dyn_cast<CallExpr>(S)) {
      if (auto *FD = X->getDirectCallee()) J.attribute("d", declId(FD));
      if (auto *O = dyn_cast<CXXOperatorCallExpr>(S))
        J.attribute("op", std::string(getOperatorSpelling(O->getOperator())));
      if (auto *M = dyn_cast<CXXMemberCallExpr>(S)) {
        if (auto *MD = M->getMethodDecl()) {
          bool Virt = MD->isVirtual();
          if (auto *ME = dyn_cast<MemberExpr>(M->getCallee()->IgnoreParens()))
            if (ME->hasQualifier()) Virt = false;
          if (Virt) J.attribute("virt", true);
        }
      }
    } else if (auto *X = dyn_cast<CXXConstructExpr>(S)) {
      J.attribute("d", declId(X->getConstructor()));
      if (X->isElidable()) J.attribute("elide", true);
      if (X->isListInitialization()) J.attribute("list", true);
      if (X->requiresZeroInitialization()) J.attribute("zero", true);
    } else if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(S)) {
      J.attribute("d", declId(X->getConstructor()));
    } else if (auto *X = dyn_cast<CXXNewExpr>(S)) {
      if (X->getNumPlacementArgs()) J.attribute("placement", true);
      if (X->isArray()) J.attribute("array", true);
      J.attribute("at", typeId(X->getAllocatedType()));
      J.attributeArray("pargs", [&] {
        for (unsigned I = 0; I < X->getNumPlacementArgs(); ++I)
          emitStmt(X->getPlacementArg(I));
      });
      if (X->getInitializer()) attrStmt("init", X->getInitializer());
      if (auto *O = X->getOperatorNew()) J.attribute("d", declId(O));
      Children = false;
    } else if (auto *X = dyn_cast<CXXDeleteExpr>(S)) {
      if (X->isArrayForm()) J.attribute("array", true);
      J.attribute("dt", typeId(X->getDestroyedType()));
    } else if (auto *X = dyn_cast<UnaryOperator>(S)) {
      J.attribute("op", std::string(UnaryOperator::getOpcodeStr(X->getOpcode())));
      if (X->isPostfix()) J.attribute("post", true);
    } else if (auto *X = dyn_cast<BinaryOperator>(S)) {
      J.attribute("op", std::string(X->getOpcodeStr()));
      if (auto *CA = dyn_cast<CompoundAssignOperator>(S))
        J.attribute("ct", typeId(CA->getComputationResultType()));
    } else if (auto *X = dyn_cast<IntegerLiteral>(S)) {
      J.attribute("v", toStr(llvm::APSInt(X->getValue(),
                                          !X->getType()->isSignedIntegerType())));
    } else if (auto *X = dyn_cast<CharacterLiteral>(S)) {
      J.attribute("v", std::to_string(X->getValue()));
    } else if (auto *X = dyn_cast<CXXBoolLiteralExpr>(S)) {
      J.attribute("v", X->getValue() ? "1" : "0");
    } else if (auto *X = dyn_cast<FloatingLiteral>(S)) {
      J.attribute("v", std::to_string(X->getValueAsApproximateDouble()));
    } else if (auto *X = dyn_cast<StringLiteral>(S)) {
      std::string B;
      if (X->getCharByteWidth() == 1)
        for (unsigned char C : X->getBytes())
          llvm::json::isUTF8(llvm::StringRef((char *)&C, 1))
              ? (void)B.push_back(C)
              : (void)(B += "\\x" + llvm::utohexstr(C));
      J.attribute("v", B);
      if (X->getCharByteWidth() == 1)
        J.attributeArray("bytes", [&] {
          for (unsigned char C : X->getBytes()) J.value((int64_t)C);
        });
    } else if (auto *X = dyn_cast<CastExpr>(S)) {
      J.attribute("ck", X->getCastKindName());
      if (auto *CF = X->getConversionFunction())
        J.attribute("d", declId(cast<NamedDecl>(CF)->getUnderlyingDecl()));
    } else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(S)) {
      if (auto *T = X->getTemporary())
        if (T->getDestructor())
          J.attribute("dtor", declId(T->getDestructor()));
    } else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(S)) {
      if (X->getExtendingDecl()) J.attribute("ext", declId(X->getExtendingDecl()));
    } else if (auto *X = dyn_cast<LambdaExpr>(S)) {
      J.attribute("rec", declId(X->getLambdaClass()));
      J.attribute("opfn", declId(X->getCallOperator()));
      J.attributeArray("caps", [&] {
        auto InitIt = X->capture_init_begin();
        auto FieldIt = X->getLambdaClass()->field_begin();
        for (auto &C : X->captures()) {
          J.object([&] {
            if (C.capturesThis())
              J.attribute("kind", C.getCaptureKind() == LCK_StarThis ? "starthis" : "this");
            else if (C.capturesVariable()) {
              J.attribute("kind", C.getCaptureKind() == LCK_ByRef ? "ref" : "copy");
              J.attribute("d", declId(C.getCapturedVar()));
            }
            if (FieldIt != X->getLambdaClass()->field_end()) {
              J.attribute("field", declId(*FieldIt));
              ++FieldIt;
            }
            if (*InitIt) attrStmt("init", *InitIt);
            ++InitIt;
          });
        }
      });
      Children = false;
    } else if (auto *X = dyn_cast<DeclStmt>(S)) {
      J.attributeArray("decls", [&] {
        for (auto *D : X->decls())
          if (auto *V = dyn_cast<VarDecl>(D)) emitVarInit(V);
      });
      Children = false;
    } else if (auto *X = dyn_cast<IfStmt>(S)) {
      attrStmt("init", X->getInit());
      attrStmt("cvar", X->getConditionVariableDeclStmt());
      attrStmt("cond", X->getCond());
      attrStmt("then", X->getThen());
      attrStmt("else", X->getElse());
      Children = false;
    } else if (auto *X = dyn_cast<WhileStmt>(S)) {
      attrStmt("cvar", X->getConditionVariableDeclStmt());
      attrStmt("cond", X->getCond());
      attrStmt("body", X->getBody());
      Children = false;
    } else if (auto *X = dyn_cast<DoStmt>(S)) {
      attrStmt("cond", X->getCond());
      attrStmt("body", X->getBody());
      Children = false;
    } else if (auto *X = dyn_cast<ForStmt>(S)) {
      attrStmt("init", X->getInit());
      attrStmt("cvar", X->getConditionVariableDeclStmt());
      attrStmt("cond", X->getCond());
      attrStmt("inc", X->getInc());
      attrStmt("body", X->getBody());
      Children = false;
    } else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      attrStmt("init", X->getInit());
      attrStmt("range", X->getRangeStmt());
      attrStmt("begin", X->getBeginStmt());
      attrStmt("end", X->getEndStmt());
      attrStmt("cond", X->getCond());
      attrStmt("inc", X->getInc());
      attrStmt("var", X->getLoopVarStmt());
      attrStmt("body", X->getBody());
      Children = false;
    } else if (auto *X = dyn_cast<SwitchStmt>(S)) {
      attrStmt("init", X->getInit());
      attrStmt("cvar", X->getConditionVariableDeclStmt());
      attrStmt("cond", X->getCond());
      attrStmt("body", X->getBody());
      Children = false;
    } else if (auto *X = dyn_cast<CaseStmt>(S)) {
      attrStmt("lhs", X->getLHS());
      attrStmt("sub", X->getSubStmt());
      Children = false;
    } else if (auto *X = dyn_cast<DefaultStmt>(S)) {
      attrStmt("sub", X->getSubStmt());
      Children = false;
    } else if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      attrStmt("body", X->getTryBlock());
      J.attributeArray("handlers", [&] {
        for (unsigned I = 0; I < X->getNumHandlers(); ++I) {
          auto *H = X->getHandler(I);
          J.object([&] {
            J.attribute("l", lineOf(H->getBeginLoc()));
            if (auto *V = H->getExceptionDecl()) {
              J.attribute("var", declId(V));
              J.attribute("ht", typeId(V->getType()));
            }
            attrStmt("body", H->getHandlerBlock());
          });
        }
      });
      Children = false;
    } else if (auto *X = dyn_cast<InitListExpr>(S)) {
      if (auto *F = X->getInitializedFieldInUnion())
        J.attribute("ufield", declId(F));
      if (X->hasArrayFiller()) attrStmt("filler", X->getArrayFiller());
      J.attributeArray("c", [&] {
        const InitListExpr *Sem =
            X->isSemanticForm() ? X : X->getSemanticForm() ? X->getSemanticForm() : X;
        for (auto *C : Sem->inits()) child(C);
      });
      Children = false;
    } else if (auto *X = dyn_cast<CXXTypeidExpr>(S)) {
      if (X->isTypeOperand()) {
        J.attribute("tt", typeId(X->getTypeOperand(Ctx)));
        Children = false;
      }
    } else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
      Children = false;
    } else if (auto *X = dyn_cast<CXXNoexceptExpr>(S)) {
      Children = false;
    } else if (auto *X = dyn_cast<CXXPseudoDestructorExpr>(S)) {
      (void)X;
    }
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
  Exporter &E;
  ASTContext &Ctx;
  Visitor(Exporter &E, ASTContext &C) : E(E), Ctx(C) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *FD) {
    if (!E.inRoots(FD->getLocation())) return true;
    if (FD->isDependentContext()) {
      if (FD->isThisDeclarationADefinition()) {
        E.Patterns.insert(E.fileOf(FD->getLocation()) + ":" +
                          std::to_string(E.lineOf(FD->getLocation())) + ":" +
                          FD->getNameAsString());
      }
      return true;
    }
    if (FD->getDescribedFunctionTemplate()) return true;
    E.addFunction(FD);
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->hasGlobalStorage() && E.inRoots(V->getLocation()) &&
        !V->getDeclContext()->isDependentContext() &&
        !V->getDescribedVarTemplate() && !V->getType()->isDependentType())
      E.declId(V);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (E.inRoots(R->getLocation()) && !R->isDependentContext() &&
        R->isThisDeclarationADefinition())
      E.declId(R);
    return true;
  }
};

class Consumer : public ASTConsumer {
public:
  std::string Out;
  explicit Consumer(std::string O) : Out(std::move(O)) {}
  void HandleTranslationUnit(ASTContext &Ctx) override {
    // Errors inside the probe are tolerated (a body that no longer compiles is
    // dropped); the Python side refuses errors located in the repository.
    std::error_code EC;
    llvm::raw_fd_ostream OS(Out, EC);
    Exporter E(Ctx, OS);
    Visitor V(E, Ctx);
    V.TraverseDecl(Ctx.getTranslationUnitDecl());
    E.run();
  }
};

class Action : public ASTFrontendAction {
public:
  std::string Out;
  explicit Action(std::string O) : Out(std::move(O)) {}
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &,
                                                 llvm::StringRef) override {
    return std::make_unique<Consumer>(Out);
  }
};
} // namespace

// rcx OUT.json ROOT1:ROOT2 -- clang-args... file.cpp
int main(int argc, char **argv) {
  if (argc < 5) return 2;
  std::string Out = argv[1];
  llvm::SmallVector<llvm::StringRef, 4> Rs;
  llvm::StringRef(argv[2]).split(Rs, ':');
  for (auto R : Rs) Roots.push_back(R.str());
  std::vector<std::string> Args{"clang++"};
  for (int I = 4; I < argc; ++I) Args.push_back(argv[I]);
  Args.push_back("-fsyntax-only");
  Args.push_back("-resource-dir=/usr/lib/llvm-18/lib/clang/18");
  llvm::IntrusiveRefCntPtr<FileManager> FM(new FileManager(FileSystemOptions()));
  tooling::ToolInvocation Inv(Args, std::make_unique<Action>(Out), FM.get());
  return Inv.run() ? 0 : 1;
}
