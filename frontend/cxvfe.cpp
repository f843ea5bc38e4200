// cxvfe: parses a C++ translation unit with clang and writes the typed AST of every function that is
// defined in user code (i.e. not in a system header), instantiations included, as JSON.
// It interprets nothing: the verifier in /verif/cxv gives the nodes their meaning.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string OutFile;

class Exporter
{
public:
    Exporter( ASTContext & C ) : Ctx( C ), SM( C.getSourceManager() ), PP( C.getPrintingPolicy() )
    {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
    }

    ASTContext & Ctx;
    SourceManager & SM;
    PrintingPolicy PP;
    std::map<const Decl *, int> DeclIds;
    std::map<const void *, int> TypeIds;
    Array Types;
    std::set<const FunctionDecl *> FuncsDone;
    std::vector<const FunctionDecl *> FuncQueue;
    std::set<const RecordDecl *> RecsDone;
    std::vector<const RecordDecl *> RecQueue;
    Array Funcs, Recs, Globals;
    std::set<const VarDecl *> GlobalsDone;

    int id( const Decl * D )
    {
        D = D->getCanonicalDecl();
        auto it = DeclIds.find( D );
        if( it != DeclIds.end() )
            return it->second;
        int n = DeclIds.size();
        DeclIds[D] = n;
        return n;
    }

    bool inSystem( SourceLocation L )
    {
        if( L.isInvalid() )
            return true;
        L = SM.getExpansionLoc( L );
        if( SM.isInSystemHeader( L ) )
            return true;
        return SM.getFilename( L ).starts_with( "/usr/" );
    }

    bool isUser( const Decl * D )
    {
        if( auto * R = dyn_cast<ClassTemplateSpecializationDecl>( D ) )
            return !inSystem( R->getSpecializedTemplate()->getLocation() ) || !inSystem( R->getLocation() );
        return !inSystem( D->getLocation() );
    }

    std::string qname( const NamedDecl * D )
    {
        std::string s;
        llvm::raw_string_ostream os( s );
        // qualified name without template arguments
        std::vector<std::string> parts;
        const DeclContext * DC = D->getDeclContext();
        while( DC )
        {
            if( auto * NS = dyn_cast<NamespaceDecl>( DC ) )
            {
                if( !NS->isInline() && !NS->isAnonymousNamespace() )
                    parts.push_back( NS->getNameAsString() );
            }
            else if( auto * R = dyn_cast<RecordDecl>( DC ) )
            {
                std::string n = R->getNameAsString();
                parts.push_back( n.empty() ? "(anon)" : n );
            }
            else if( auto * F = dyn_cast<FunctionDecl>( DC ) )
                parts.push_back( F->getNameAsString() );
            DC = DC->getParent();
        }
        for( auto it = parts.rbegin(); it != parts.rend(); ++it )
            s += *it + "::";
        s += D->getNameAsString();
        return s;
    }

    int type( QualType Q )
    {
        Q = Ctx.getCanonicalType( Q );
        bool isConst = Q.isConstQualified();
        const void * key = Q.getAsOpaquePtr();
        auto it = TypeIds.find( key );
        if( it != TypeIds.end() )
            return it->second;
        int n = Types.size();
        TypeIds[key] = n;
        Types.push_back( nullptr );
        Object o;
        if( isConst )
            o["const"] = true;
        o["s"] = Q.getAsString( PP );
        const Type * T = Q.getTypePtr();
        if( auto * B = dyn_cast<BuiltinType>( T ) )
        {
            if( B->getKind() == BuiltinType::Bool )
                o["k"] = "bool";
            else if( B->isInteger() )
            {
                o["k"] = "int";
                o["w"] = (int64_t)Ctx.getTypeSize( Q );
                o["sg"] = B->isSignedInteger();
                if( B->isAnyCharacterType() )
                    o["char"] = true;
            }
            else if( B->isFloatingPoint() )
            {
                o["k"] = "real";
                o["w"] = (int64_t)Ctx.getTypeSize( Q );
            }
            else if( B->isVoidType() )
                o["k"] = "void";
            else
                o["k"] = "builtin";
        }
        else if( auto * E = dyn_cast<EnumType>( T ) )
        {
            o["k"] = "enum";
            o["name"] = qname( E->getDecl() );
            QualType U = E->getDecl()->getIntegerType();
            if( !U.isNull() )
            {
                o["w"] = (int64_t)Ctx.getTypeSize( U );
                o["sg"] = U->isSignedIntegerType();
            }
            Array vals;
            for( auto * EC : E->getDecl()->enumerators() )
                vals.push_back( Array{ EC->getNameAsString(), EC->getInitVal().getExtValue() } );
            o["vals"] = std::move( vals );
        }
        else if( auto * R = dyn_cast<RecordType>( T ) )
        {
            const RecordDecl * RD = R->getDecl();
            if( auto * Def = RD->getDefinition() )
                RD = Def;
            o["k"] = "rec";
            o["name"] = qname( RD );
            if( auto * S = dyn_cast<ClassTemplateSpecializationDecl>( RD ) )
                o["args"] = targs( S->getTemplateArgs().asArray() );
            if( auto * CR = dyn_cast<CXXRecordDecl>( RD ) )
                if( CR->isLambda() )
                    o["lambda"] = true;
            if( isUser( RD ) || ( dyn_cast<CXXRecordDecl>( RD ) && dyn_cast<CXXRecordDecl>( RD )->isLambda() ) )
            {
                o["rid"] = id( RD );
                if( RecsDone.insert( RD ).second )
                    RecQueue.push_back( RD );
            }
        }
        else if( auto * R = dyn_cast<ReferenceType>( T ) )
        {
            o["k"] = "ref";
            o["rv"] = isa<RValueReferenceType>( T );
            o["to"] = type( R->getPointeeType() );
        }
        else if( auto * P = dyn_cast<PointerType>( T ) )
        {
            o["k"] = "ptr";
            o["to"] = type( P->getPointeeType() );
        }
        else if( auto * A = dyn_cast<ConstantArrayType>( T ) )
        {
            o["k"] = "arr";
            o["n"] = (int64_t)A->getSize().getZExtValue();
            o["to"] = type( A->getElementType() );
        }
        else if( auto * F = dyn_cast<FunctionProtoType>( T ) )
        {
            o["k"] = "func";
            o["ret"] = type( F->getReturnType() );
            Array ps;
            for( auto p : F->param_types() )
                ps.push_back( type( p ) );
            o["params"] = std::move( ps );
        }
        else
        {
            o["k"] = "other";
            o["cls"] = T->getTypeClassName();
        }
        Types[n] = std::move( o );
        return n;
    }

    Array targs( llvm::ArrayRef<TemplateArgument> As )
    {
        Array r;
        for( auto & A : As )
        {
            switch( A.getKind() )
            {
                case TemplateArgument::Type: r.push_back( Object{ { "t", type( A.getAsType() ) } } ); break;
                case TemplateArgument::Integral:
                    r.push_back( Object{ { "i", llvm::toString( A.getAsIntegral(), 10 ) } } );
                    break;
                case TemplateArgument::Pack:
                    r.push_back( Object{ { "pack", targs( A.getPackAsArray() ) } } );
                    break;
                default: r.push_back( Object{ { "other", (int)A.getKind() } } ); break;
            }
        }
        return r;
    }

    Value loc( SourceLocation L )
    {
        L = SM.getExpansionLoc( L );
        if( L.isInvalid() )
            return nullptr;
        return (int64_t)SM.getExpansionLineNumber( L );
    }
    std::string file( SourceLocation L )
    {
        L = SM.getExpansionLoc( L );
        return SM.getFilename( L ).str();
    }

    void want( const FunctionDecl * F )
    {
        if( auto * D = F->getDefinition() )
            F = D;
        if( FuncsDone.insert( F ).second )
            FuncQueue.push_back( F );
    }

    Object fref( const FunctionDecl * F )
    {
        if( auto * D = F->getDefinition() )
            F = D;
        Object o;
        o["id"] = id( F );
        o["q"] = qname( F );
        if( auto * TA = F->getTemplateSpecializationArgs() )
            o["targs"] = targs( TA->asArray() );
        Array ps;
        for( auto * P : F->parameters() )
            ps.push_back( type( P->getType() ) );
        o["params"] = std::move( ps );
        o["ret"] = type( F->getReturnType() );
        if( auto * M = dyn_cast<CXXMethodDecl>( F ) )
        {
            o["cls"] = type( Ctx.getRecordType( M->getParent() ) );
            o["static"] = M->isStatic();
            o["const"] = M->isConst();
            o["virt"] = M->isVirtual();
            if( M->isCopyAssignmentOperator() || M->isMoveAssignmentOperator() )
                o["asg"] = true;
            if( M->isImplicit() || M->isDefaulted() )
                o["dflt"] = true;
        }
        if( auto * K = dyn_cast<CXXConstructorDecl>( F ) )
        {
            if( K->isCopyOrMoveConstructor() )
                o["cm"] = true;
            if( K->isDefaultConstructor() )
                o["dc"] = true;
        }
        if( F->isVariadic() )
            o["variadic"] = true;
        o["user"] = isUserFunc( F );
        if( isUserFunc( F ) )
            want( F );
        return o;
    }
    bool isUserFunc( const FunctionDecl * F )
    {
        if( auto * M = dyn_cast<CXXMethodDecl>( F ) )
        {
            if( M->getParent()->isLambda() )
                return true;
            if( isUser( M->getParent() ) )
                return true;
        }
        return !inSystem( F->getLocation() );
    }

    Value var( const VarDecl * V )
    {
        Object o;
        o["id"] = id( V );
        o["name"] = V->getNameAsString();
        o["t"] = type( V->getType() );
        if( V->isStaticLocal() )
            o["static"] = true;
        if( V->hasInit() )
            o["init"] = expr( V->getInit() );
        o["l"] = loc( V->getLocation() );
        return o;
    }

    void global( const VarDecl * V )
    {
        if( !GlobalsDone.insert( V->getCanonicalDecl() ).second )
            return;
        Object o;
        o["id"] = id( V );
        o["q"] = qname( V );
        o["t"] = type( V->getType() );
        const VarDecl * D = nullptr;
        if( const Expr * I = V->getAnyInitializer( D ) )
        {
            if( !isUser( V ) )
            {
                Expr::EvalResult R;
                if( !I->isValueDependent() && I->EvaluateAsRValue( R, Ctx ) && R.Val.isInt() )
                    o["int"] = llvm::toString( R.Val.getInt(), 10 );
            }
            else
                o["init"] = expr( I );
        }
        o["const"] = V->getType().isConstQualified() || V->isConstexpr();
        Globals.push_back( std::move( o ) );
    }

    Value expr( const Expr * E )
    {
        if( !E )
            return nullptr;
        // transparent nodes
        if( auto * P = dyn_cast<ParenExpr>( E ) )
            return expr( P->getSubExpr() );
        if( auto * P = dyn_cast<FullExpr>( E ) )
            return expr( P->getSubExpr() );
        if( auto * P = dyn_cast<MaterializeTemporaryExpr>( E ) )
        {
            Object o{ { "k", "Temp" }, { "e", expr( P->getSubExpr() ) } };
            o["t"] = type( E->getType() );
            o["l"] = loc( E->getBeginLoc() );
            return o;
        }
        if( auto * P = dyn_cast<CXXBindTemporaryExpr>( E ) )
            return expr( P->getSubExpr() );
        if( auto * P = dyn_cast<SubstNonTypeTemplateParmExpr>( E ) )
            return expr( P->getReplacement() );
        if( auto * P = dyn_cast<CXXDefaultArgExpr>( E ) )
            return expr( P->getExpr() );
        if( auto * P = dyn_cast<CXXDefaultInitExpr>( E ) )
            return expr( P->getExpr() );
        if( auto * P = dyn_cast<CXXRewrittenBinaryOperator>( E ) )
            return expr( P->getSemanticForm() );
        if( auto * P = dyn_cast<OpaqueValueExpr>( E ) )
            return expr( P->getSourceExpr() );
        if( auto * P = dyn_cast<ChooseExpr>( E ) )
            return expr( P->getChosenSubExpr() );
        if( auto * P = dyn_cast<GenericSelectionExpr>( E ) )
            return expr( P->getResultExpr() );

        Object o;
        o["t"] = type( E->getType() );
        o["l"] = loc( E->getExprLoc() );
        if( E->isLValue() )
            o["lv"] = true;
        else if( E->isXValue() )
            o["xv"] = true;

        if( auto * L = dyn_cast<IntegerLiteral>( E ) )
        {
            o["k"] = "Int";
            o["v"] = llvm::toString( L->getValue(), 10, E->getType()->isSignedIntegerType() );
        }
        else if( auto * L = dyn_cast<FloatingLiteral>( E ) )
        {
            o["k"] = "Real";
            llvm::SmallString<64> S;
            L->getValue().toString( S, 40, 0, false );
            o["v"] = S.str().str();
        }
        else if( auto * L = dyn_cast<CXXBoolLiteralExpr>( E ) )
        {
            o["k"] = "Bool";
            o["v"] = L->getValue();
        }
        else if( auto * L = dyn_cast<CharacterLiteral>( E ) )
        {
            o["k"] = "Int";
            o["v"] = std::to_string( L->getValue() );
        }
        else if( auto * L = dyn_cast<StringLiteral>( E ) )
        {
            o["k"] = "Str";
            Array a;
            for( unsigned i = 0; i < L->getLength(); i++ )
                a.push_back( (int64_t)L->getCodeUnit( i ) );
            o["v"] = std::move( a );
        }
        else if( isa<CXXNullPtrLiteralExpr>( E ) || isa<GNUNullExpr>( E ) )
            o["k"] = "Null";
        else if( auto * R = dyn_cast<DeclRefExpr>( E ) )
        {
            const ValueDecl * D = R->getDecl();
            o["k"] = "Ref";
            o["name"] = D->getNameAsString();
            if( auto * V = dyn_cast<VarDecl>( D ) )
            {
                o["id"] = id( V );
                if( V->hasGlobalStorage() && !V->isStaticLocal() )
                {
                    o["d"] = "global";
                    o["q"] = qname( V );
                    global( V );
                }
                else
                    o["d"] = V->isStaticLocal() ? "static" : "var";
            }
            else if( auto * EC = dyn_cast<EnumConstantDecl>( D ) )
            {
                o["d"] = "enum";
                o["v"] = llvm::toString( EC->getInitVal(), 10 );
            }
            else if( auto * F = dyn_cast<FunctionDecl>( D ) )
            {
                o["d"] = "func";
                o["f"] = fref( F );
            }
            else if( auto * B = dyn_cast<BindingDecl>( D ) )
            {
                o["d"] = "binding";
                o["id"] = id( B );
                o["b"] = B->getBinding() ? expr( B->getBinding() ) : Value( nullptr );
            }
            else
                o["d"] = "other";
        }
        else if( auto * M = dyn_cast<MemberExpr>( E ) )
        {
            const ValueDecl * D = M->getMemberDecl();
            if( auto * F = dyn_cast<FieldDecl>( D ) )
            {
                o["k"] = "Member";
                o["name"] = F->getNameAsString();
                o["e"] = expr( M->getBase() );
                o["arrow"] = M->isArrow();
                o["cls"] = type( Ctx.getRecordType( F->getParent() ) );
            }
            else if( auto * V = dyn_cast<VarDecl>( D ) )
            {
                o["k"] = "Ref";
                o["name"] = V->getNameAsString();
                o["id"] = id( V );
                o["d"] = "global";
                o["q"] = qname( V );
                global( V );
            }
            else if( auto * EC = dyn_cast<EnumConstantDecl>( D ) )
            {
                o["k"] = "Ref";
                o["d"] = "enum";
                o["v"] = llvm::toString( EC->getInitVal(), 10 );
            }
            else
            {
                o["k"] = "Unsup";
                o["what"] = "member function reference";
            }
        }
        else if( isa<CXXThisExpr>( E ) )
            o["k"] = "This";
        else if( auto * C = dyn_cast<CXXConstructExpr>( E ) )
        {
            o["k"] = "Construct";
            o["f"] = fref( C->getConstructor() );
            o["elide"] = C->isElidable();
            o["list"] = C->isListInitialization();
            o["stdinit"] = C->isStdInitListInitialization();
            Array a;
            for( auto * X : C->arguments() )
                a.push_back( expr( X ) );
            o["args"] = std::move( a );
        }
        else if( auto * C = dyn_cast<CXXInheritedCtorInitExpr>( E ) )
        {
            o["k"] = "Unsup";
            o["what"] = "inherited constructor";
        }
        else if( auto * C = dyn_cast<CallExpr>( E ) )
        {
            o["k"] = "Call";
            const FunctionDecl * F = C->getDirectCallee();
            Array a;
            for( auto * X : C->arguments() )
                a.push_back( expr( X ) );
            if( F )
            {
                o["f"] = fref( F );
                if( auto * MC = dyn_cast<CXXMemberCallExpr>( E ) )
                {
                    o["obj"] = expr( MC->getImplicitObjectArgument() );
                    if( auto * ME = dyn_cast<MemberExpr>( MC->getCallee()->IgnoreParenImpCasts() ) )
                    {
                        o["arrow"] = ME->isArrow();
                        o["qual"] = ME->hasQualifier();
                    }
                }
                else if( auto * OC = dyn_cast<CXXOperatorCallExpr>( E ) )
                {
                    o["op"] = getOperatorSpelling( OC->getOperator() );
                    if( isa<CXXMethodDecl>( F ) && !cast<CXXMethodDecl>( F )->isStatic() )
                        o["opm"] = true; // args[0] is the object
                }
            }
            else
                o["callee"] = expr( C->getCallee() );
            o["args"] = std::move( a );
        }
        else if( auto * U = dyn_cast<UnaryOperator>( E ) )
        {
            o["k"] = "Un";
            o["op"] = UnaryOperator::getOpcodeStr( U->getOpcode() ).str();
            o["post"] = U->isPostfix();
            o["e"] = expr( U->getSubExpr() );
        }
        else if( auto * B = dyn_cast<CompoundAssignOperator>( E ) )
        {
            o["k"] = "CAsg";
            o["op"] = BinaryOperator::getOpcodeStr( BinaryOperator::getOpForCompoundAssignment( B->getOpcode() ) ).str();
            o["ct"] = type( B->getComputationResultType() );
            o["clt"] = type( B->getComputationLHSType() );
            o["a"] = expr( B->getLHS() );
            o["b"] = expr( B->getRHS() );
        }
        else if( auto * B = dyn_cast<BinaryOperator>( E ) )
        {
            o["k"] = B->isAssignmentOp() ? "Asg" : "Bin";
            o["op"] = B->getOpcodeStr().str();
            o["a"] = expr( B->getLHS() );
            o["b"] = expr( B->getRHS() );
        }
        else if( auto * C = dyn_cast<ConditionalOperator>( E ) )
        {
            o["k"] = "Cond";
            o["c"] = expr( C->getCond() );
            o["a"] = expr( C->getTrueExpr() );
            o["b"] = expr( C->getFalseExpr() );
        }
        else if( auto * A = dyn_cast<ArraySubscriptExpr>( E ) )
        {
            o["k"] = "Index";
            o["a"] = expr( A->getBase() );
            o["b"] = expr( A->getIdx() );
        }
        else if( auto * C = dyn_cast<CastExpr>( E ) )
        {
            auto K = C->getCastKind();
            if( K == CK_NoOp || K == CK_ConstructorConversion || K == CK_UserDefinedConversion || K == CK_Dependent )
                return expr( C->getSubExpr() );
            if( K == CK_LValueToRValue )
            {
                o["k"] = "Load";
                o["e"] = expr( C->getSubExpr() );
                return o;
            }
            o["k"] = "Cast";
            o["ck"] = C->getCastKindName();
            o["expl"] = isa<ExplicitCastExpr>( C );
            o["e"] = expr( C->getSubExpr() );
        }
        else if( auto * L = dyn_cast<LambdaExpr>( E ) )
        {
            o["k"] = "Lambda";
            auto * RD = L->getLambdaClass();
            o["rid"] = id( RD );
            if( RecsDone.insert( RD ).second )
                RecQueue.push_back( RD );
            Array caps;
            auto init = L->capture_init_begin();
            for( auto & Cp : L->captures() )
            {
                Object c;
                if( Cp.capturesThis() )
                {
                    c["this"] = true;
                    c["byref"] = Cp.getCaptureKind() == LCK_This;
                }
                else if( Cp.capturesVariable() )
                {
                    auto * V = Cp.getCapturedVar();
                    c["id"] = id( V );
                    c["name"] = V->getNameAsString();
                    c["byref"] = Cp.getCaptureKind() == LCK_ByRef;
                    c["vt"] = type( V->getType() );
                }
                if( *init )
                    c["init"] = expr( *init );
                ++init;
                caps.push_back( std::move( c ) );
            }
            o["caps"] = std::move( caps );
        }
        else if( auto * I = dyn_cast<InitListExpr>( E ) )
        {
            if( !I->isSemanticForm() && I->getSemanticForm() )
                I = I->getSemanticForm();
            if( I->isTransparent() && I->getNumInits() == 1 )
                return expr( I->getInit( 0 ) );
            o["k"] = "InitList";
            Array a;
            for( auto * X : I->inits() )
                a.push_back( expr( X ) );
            o["args"] = std::move( a );
            if( I->hasArrayFiller() )
                o["filler"] = expr( I->getArrayFiller() );
        }
        else if( auto * I = dyn_cast<CXXStdInitializerListExpr>( E ) )
        {
            o["k"] = "StdInit";
            o["e"] = expr( I->getSubExpr() );
        }
        else if( isa<ImplicitValueInitExpr>( E ) || isa<CXXScalarValueInitExpr>( E ) )
            o["k"] = "Zero";
        else if( auto * T = dyn_cast<CXXThrowExpr>( E ) )
        {
            o["k"] = "Throw";
            o["e"] = expr( T->getSubExpr() );
        }
        else if( auto * N = dyn_cast<CXXNewExpr>( E ) )
        {
            o["k"] = "Unsup";
            o["what"] = "new";
        }
        else
        {
            Expr::EvalResult R;
            if( !E->isValueDependent() && E->getType()->isIntegralOrEnumerationType()
                && E->EvaluateAsRValue( R, Ctx ) && R.Val.isInt() )
            {
                o["k"] = E->getType()->isBooleanType() ? "Bool" : "Int";
                if( E->getType()->isBooleanType() )
                    o["v"] = R.Val.getInt() != 0;
                else
                    o["v"] = llvm::toString( R.Val.getInt(), 10 );
            }
            else
            {
                o["k"] = "Unsup";
                o["what"] = E->getStmtClassName();
            }
        }
        return o;
    }

    Value stmt( const Stmt * S )
    {
        if( !S )
            return nullptr;
        if( auto * E = dyn_cast<Expr>( S ) )
            return Object{ { "k", "Expr" }, { "e", expr( E ) }, { "l", loc( S->getBeginLoc() ) } };
        Object o;
        o["l"] = loc( S->getBeginLoc() );
        if( auto * C = dyn_cast<CompoundStmt>( S ) )
        {
            o["k"] = "Block";
            Array a;
            for( auto * X : C->body() )
                a.push_back( stmt( X ) );
            o["b"] = std::move( a );
        }
        else if( auto * D = dyn_cast<DeclStmt>( S ) )
        {
            o["k"] = "Decl";
            Array a;
            for( auto * X : D->decls() )
            {
                if( auto * DD = dyn_cast<DecompositionDecl>( X ) )
                {
                    Object d = std::move( *var( DD ).getAsObject() );
                    Array bs;
                    for( auto * B : DD->bindings() )
                    {
                        Object bo{ { "id", id( B ) }, { "name", B->getNameAsString() }, { "t", type( B->getType() ) } };
                        if( auto * HV = B->getHoldingVar() )
                            bo["hold"] = var( HV );
                        else
                            bo["b"] = expr( B->getBinding() );
                        bs.push_back( std::move( bo ) );
                    }
                    d["bindings"] = std::move( bs );
                    a.push_back( std::move( d ) );
                }
                else if( auto * V = dyn_cast<VarDecl>( X ) )
                    a.push_back( var( V ) );
            }
            o["d"] = std::move( a );
        }
        else if( auto * I = dyn_cast<IfStmt>( S ) )
        {
            o["k"] = "If";
            if( I->isConstexpr() )
            {
                auto ND = I->getNondiscardedCase( Ctx );
                if( ND )
                {
                    o["k"] = "Block";
                    Array a;
                    if( I->getInit() )
                        a.push_back( stmt( I->getInit() ) );
                    if( *ND )
                        a.push_back( stmt( *ND ) );
                    o["b"] = std::move( a );
                    return o;
                }
            }
            if( I->getInit() )
                o["init"] = stmt( I->getInit() );
            if( I->getConditionVariable() )
                o["cv"] = var( I->getConditionVariable() );
            o["c"] = expr( I->getCond() );
            o["a"] = stmt( I->getThen() );
            o["b"] = stmt( I->getElse() );
        }
        else if( auto * F = dyn_cast<ForStmt>( S ) )
        {
            o["k"] = "For";
            o["init"] = stmt( F->getInit() );
            o["c"] = expr( F->getCond() );
            o["inc"] = expr( F->getInc() );
            o["b"] = stmt( F->getBody() );
        }
        else if( auto * W = dyn_cast<WhileStmt>( S ) )
        {
            o["k"] = "While";
            if( W->getConditionVariable() )
                o["cv"] = var( W->getConditionVariable() );
            o["c"] = expr( W->getCond() );
            o["b"] = stmt( W->getBody() );
        }
        else if( auto * W = dyn_cast<DoStmt>( S ) )
        {
            o["k"] = "Do";
            o["c"] = expr( W->getCond() );
            o["b"] = stmt( W->getBody() );
        }
        else if( auto * R = dyn_cast<CXXForRangeStmt>( S ) )
        {
            o["k"] = "Range";
            if( R->getInit() )
                o["init"] = stmt( R->getInit() );
            o["range"] = expr( R->getRangeInit() );
            o["rt"] = type( R->getRangeInit()->getType() );
            o["var"] = var( R->getLoopVariable() );
            o["b"] = stmt( R->getBody() );
        }
        else if( auto * R = dyn_cast<ReturnStmt>( S ) )
        {
            o["k"] = "Return";
            o["e"] = expr( R->getRetValue() );
        }
        else if( isa<BreakStmt>( S ) )
            o["k"] = "Break";
        else if( isa<ContinueStmt>( S ) )
            o["k"] = "Continue";
        else if( isa<NullStmt>( S ) )
            o["k"] = "Block", o["b"] = Array{};
        else if( auto * A = dyn_cast<AttributedStmt>( S ) )
            return stmt( A->getSubStmt() );
        else if( auto * W = dyn_cast<SwitchStmt>( S ) )
        {
            o["k"] = "Switch";
            o["c"] = expr( W->getCond() );
            o["b"] = stmt( W->getBody() );
        }
        else if( auto * C = dyn_cast<CaseStmt>( S ) )
        {
            o["k"] = "Case";
            o["c"] = expr( C->getLHS() );
            o["b"] = stmt( C->getSubStmt() );
        }
        else if( auto * C = dyn_cast<DefaultStmt>( S ) )
        {
            o["k"] = "Default";
            o["b"] = stmt( C->getSubStmt() );
        }
        else if( auto * T = dyn_cast<CXXTryStmt>( S ) )
        {
            o["k"] = "Unsup";
            o["what"] = "try";
        }
        else
        {
            o["k"] = "Unsup";
            o["what"] = S->getStmtClassName();
        }
        return o;
    }

    void emitFunc( const FunctionDecl * F )
    {
        if( F->isDependentContext() )
            return;
        Object o;
        o["id"] = id( F );
        o["q"] = qname( F );
        if( auto * TA = F->getTemplateSpecializationArgs() )
            o["targs"] = targs( TA->asArray() );
        o["ret"] = type( F->getReturnType() );
        o["file"] = file( F->getLocation() );
        o["l"] = loc( F->getLocation() );
        o["le"] = loc( F->getEndLoc() );
        Array ps;
        for( auto * P : F->parameters() )
            ps.push_back( Object{ { "id", id( P ) }, { "name", P->getNameAsString() }, { "t", type( P->getType() ) } } );
        o["params"] = std::move( ps );
        if( auto * M = dyn_cast<CXXMethodDecl>( F ) )
        {
            o["cls"] = type( Ctx.getRecordType( M->getParent() ) );
            o["static"] = M->isStatic();
            o["const"] = M->isConst();
            o["virt"] = M->isVirtual();
            if( M->isImplicit() || M->isDefaulted() )
                o["dflt"] = true;
            Array ov;
            for( auto * O : M->overridden_methods() )
                ov.push_back( id( O->getDefinition() ? O->getDefinition() : O ) );
            o["over"] = std::move( ov );
        }
        if( auto * K = dyn_cast<CXXConstructorDecl>( F ) )
        {
            o["ctor"] = true;
            Array is;
            for( auto * I : K->inits() )
            {
                Object io;
                if( I->isBaseInitializer() )
                    io["base"] = type( QualType( I->getBaseClass(), 0 ) );
                else if( I->isDelegatingInitializer() )
                    io["deleg"] = true;
                else if( I->isIndirectMemberInitializer() )
                    io["unsup"] = true;
                else
                    io["field"] = I->getMember()->getNameAsString(), io["ft"] = type( I->getMember()->getType() );
                io["e"] = expr( I->getInit() );
                is.push_back( std::move( io ) );
            }
            o["inits"] = std::move( is );
        }
        if( isa<CXXDestructorDecl>( F ) )
            o["dtor"] = true;
        if( F->doesThisDeclarationHaveABody() || F->isDefined() )
            o["body"] = stmt( F->getBody() );
        Funcs.push_back( std::move( o ) );
    }

    void emitRec( const RecordDecl * R )
    {
        if( R->isDependentContext() )
            return;
        Object o;
        o["id"] = id( R );
        o["q"] = qname( R );
        o["t"] = type( Ctx.getRecordType( R ) );
        Array fs;
        for( auto * F : R->fields() )
        {
            Object fo{ { "name", F->getNameAsString() }, { "t", type( F->getType() ) } };
            if( F->hasInClassInitializer() && F->getInClassInitializer() )
                fo["init"] = expr( F->getInClassInitializer() );
            fs.push_back( std::move( fo ) );
        }
        o["fields"] = std::move( fs );
        if( auto * C = dyn_cast<CXXRecordDecl>( R ) )
        {
            if( C->hasDefinition() )
            {
                Array bs;
                for( auto & B : C->bases() )
                    bs.push_back( type( B.getType() ) );
                o["bases"] = std::move( bs );
                o["agg"] = C->isAggregate();
                if( C->isLambda() )
                {
                    o["lambda"] = true;
                    Array calls;
                    if( auto * Op = C->getLambdaCallOperator() )
                    {
                        if( auto * T = Op->getDescribedFunctionTemplate() )
                        {
                            for( auto * S : T->specializations() )
                                calls.push_back( fref( S ) );
                        }
                        else
                            calls.push_back( fref( Op ) );
                    }
                    o["calls"] = std::move( calls );
                }
                else
                {
                    // methods defined in the class (also those never called from user code)
                    for( auto * M : C->methods() )
                        if( M->isDefined() && !M->isImplicit() && !M->isDependentContext() )
                            want( M );
                }
            }
        }
        Recs.push_back( std::move( o ) );
    }

    void drain()
    {
        while( !FuncQueue.empty() || !RecQueue.empty() )
        {
            while( !FuncQueue.empty() )
            {
                auto * F = FuncQueue.back();
                FuncQueue.pop_back();
                emitFunc( F );
            }
            while( !RecQueue.empty() )
            {
                auto * R = RecQueue.back();
                RecQueue.pop_back();
                emitRec( R );
            }
        }
    }
};

class Visitor : public RecursiveASTVisitor<Visitor>
{
public:
    Exporter & X;
    Visitor( Exporter & X ) : X( X ) {}
    bool shouldVisitTemplateInstantiations() const
    {
        return true;
    }
    bool shouldVisitImplicitCode() const
    {
        return false;
    }
    bool TraverseDecl( Decl * D )
    {
        if( D && isa<NamespaceDecl>( D ) && X.inSystem( D->getLocation() ) )
            return true;
        return RecursiveASTVisitor::TraverseDecl( D );
    }
    bool VisitFunctionDecl( FunctionDecl * F )
    {
        if( F->isThisDeclarationADefinition() && !F->isDependentContext() && X.isUserFunc( F ) )
            X.want( F );
        return true;
    }
};

class Consumer : public ASTConsumer
{
public:
    void HandleTranslationUnit( ASTContext & C ) override
    {
        if( C.getDiagnostics().hasErrorOccurred() )
            return;
        Exporter X( C );
        Visitor V( X );
        V.TraverseDecl( C.getTranslationUnitDecl() );
        X.drain();
        std::error_code EC;
        llvm::raw_fd_ostream os( OutFile, EC );
        Object root;
        root["types"] = std::move( X.Types );
        root["funcs"] = std::move( X.Funcs );
        root["recs"] = std::move( X.Recs );
        root["globals"] = std::move( X.Globals );
        os << Value( std::move( root ) ) << "\n";
    }
};

class Action : public ASTFrontendAction
{
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer( CompilerInstance &, StringRef ) override
    {
        return std::make_unique<Consumer>();
    }
};

int main( int argc, const char ** argv )
{
    // usage: cxvfe OUT.json FILE.cpp -- compiler arguments
    if( argc < 4 )
        return 2;
    OutFile = argv[1];
    std::vector<std::string> args;
    for( int i = 4; i < argc; i++ )
        args.push_back( argv[i] );
    tooling::FixedCompilationDatabase DB( ".", args );
    tooling::ClangTool Tool( DB, { std::string( argv[2] ) } );
    return Tool.run( tooling::newFrontendActionFactory<Action>().get() );
}
