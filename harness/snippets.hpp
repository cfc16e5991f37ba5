// Source texts whose neighbourhoods are explored: every position, every byte.
struct Snip { const char *name, *lang, *text; size_t opts; };
static const Snip SNIP[] = {
    {"empty", "C++", "", 0},
    {"decl", "C++", "int a=1;\n", 0},
    {"if", "C++", "if(a<b){x=\"s\";}else y;\n", 0},
    {"for", "C++", "for(int i=0;i<n;++i)a[i]=f(i);\n", 0},
    {"while", "C++", "while(p->q)do{--p;}while(1);\n", 0},
    {"switch", "C++", "switch(a){case 1:b;break;default:;}\n", 0},
    {"class", "C++", "class A:public B{A():c(1){}~A();int c;};\n", 0},
    {"template", "C++", "template<class T>T f(T&&a)const{return a;}\n", 0},
    {"comment", "C++", "a;/*b*/c;//d\ne;\n", 0},
    {"doc", "C++", "/** @p\n*/f();///x\n/*!y\n*/g;//!z\n", 0},
    {"literals", "C++", "f('a',\"b\\n\",1.5e3,0x1F,true);\n", 0},
    {"raw", "C++", "s=R\"x(a)b)x\";L\"c\";u8\"d\";\n", 0},
    {"define", "C++", "#define A(x) (x+1)\nint b;\n", 0},
    {"include", "C++", "#include <a.h>\n#include \"b.h\"\nc;\n", 0},
    {"ifdef", "C++", "#if 1\na;\n#else\nb;\n#endif\nc;\n", 0},
    {"if0", "C++", "#if 0\na<\n#elif B\nb;\n#endif\n", 0},
    {"pragma", "C++", "#pragma once\n#line 5 \"f\"\n#error x y\n#undef A\n", 0},
    {"cont", "C++", "#define A b\\\n c\nd;\n", 0},
    {"lambda", "C++", "auto f=[&](int a)->int{return a;};\n", 0},
    {"try", "C++", "try{throw 1;}catch(...){goto e;}e:;\n", 0},
    {"ns", "C++", "namespace n{using a::b;enum class E{x,y=2};}\n", 0},
    {"op", "C++", "T operator+(T a,T b);a<<=b>>c&&!d?e:f;\n", 0},
    {"cast", "C++", "x=static_cast<A*>(b)->*c;delete[]d;new E;\n", 0},
    {"init", "C++", "int a[]={1,2},*b,&c=d;A x{1};\n", 0},
    {"attr", "C++", "[[a]]int b;alignas(8)c d;decltype(e)f;\n", 0},
    {"extern", "C++", "extern\"C\"{int a();}asm(\"b\");\n", 0},
    {"unb", "C++", "a(b{c]\n}}d;", 0},
    {"unstr", "C++", "x=\"ab\ny;'c\nd", 0},
    {"uncom", "C++", "a;/*b", 0},
    {"cuda", "C++", "k<<<1,2>>>(a);a<b<c>>d;\n", 0},
    {"c-kr", "C", "int f(a)int a;{return a;}struct s{int b:1;};\n", 0},
    {"c-gen", "C", "_Generic(a,int:1,default:2);typedef int t;\n", 0},
    {"c-blk", "C", "union u{int a;}v={.a=1};goto l;l:return;\n", 0},
    {"cs", "C#", "using A;[B]class C{int D{get;set;}var e=f=>g;}\n", 0},
    {"cs2", "C#", "foreach(var a in b)lock(c){yield return @d;}\n", 0},
    {"cs3", "C#", "#region a\nx=@\"b\"\"c\";y=a??b;\n#endregion\n", 0},
    {"cs4", "C#", "checked{unsafe{fixed(int*p=q){}}}from a in b where c select d;\n", 0},
    {"java", "Java", "import a.*;@B class C extends D{int e;}\n", 0},
    {"java2", "Java", "for(A b:c)synchronized(d){assert e:f;}\n", 0},
    {"java3", "Java", "enum E{A,B;}interface I<T extends J>{T f()throws K;}\n", 0},
    {"objc", "Objective-C", "@interface A:B{int c;}-(void)d:(int)e;@end\n", 0},
    {"objc2", "Objective-C", "@implementation A\n-(id)b{return [c d:@\"e\"];}\n@end\n", 0},
    {"ctrl", "C++", "a\x01/*\x02*/\"\x03\"'\x04';\n", 0},
    {"eol", "C++", "a;\r\nb;\rc;\n\n\td;", 0},
    {"pos", "C++", "if(a){\n\tb=1;}\n#define X 1\n", SRCML_OPTION_POSITION},
    {"cppopt", "C++", "#if A\na{\n#else\n}b;\n#endif\n", SRCML_OPTION_CPP_TEXT_ELSE},
    {"cppopt2", "C++", "#if 0\na{\n#else\n}b;\n#endif\n", SRCML_OPTION_CPP_MARKUP_IF0},
    // second part: the remaining keywords and constructs of each language
    {"asm", "C++", "__asm { mov a, b } /*c*/\n__asm mov a , b \nx;\n#define y\n", 0},
    {"asm2", "C++", "asm volatile(\"a\":\"=r\"(b):\"0\"(c));__asm__(\"d\");\n", 0},
    {"omp", "C++", "#pragma omp parallel for(a) b\nfor(;;);\n", 0},
    {"qt", "C++", "class A{signals:void b();};emit c();foreach(a,b)forever{}\n", 0},
    {"range", "C++", "for(auto&a:b)for(;;)continue;while(1)break;\n", 0},
    {"final", "C++", "struct A final:virtual public B{virtual void f()const override=0;explicit A()=default;friend class C;};\n", 0},
    {"tmpl2", "C++", "template<typename T,int N=3,template<class>class U>class A<T*>{};extern template class A<int>;\n", 0},
    {"using", "C++", "using A=B<C>;typedef int(*F)(int);typedef struct{int a;}T;\n", 0},
    {"op2", "C++", "bool operator()(int)const;a and b or not c xor d;e.*f;g->*h;~k;\n", 0},
    {"ctor", "C++", "A::A(int b):C(b),d{1}{}A::~A(){}A::operator int(){}\n", 0},
    {"noex", "C++", "constexpr auto f(int a=1,...)noexcept(1)->decltype(a);static_assert(1,\"b\");thread_local int c;\n", 0},
    {"cast2", "C++", "(int)a;(A*)b;const_cast<A>(b);typeid(c);sizeof(d);sizeof...(e);alignof(f);\n", 0},
    {"new", "C++", "new(a)B[c];::delete p;nullptr;throw;a?b:c;a,b;\n", 0},
    {"jump", "C++", "l:a;case 1:;default:b;break;continue;return;\n", 0},
    {"enum", "C++", "enum A:int{B=1,C}d;union{int a;};inline namespace n{}using namespace m;namespace x=y;\n", 0},
    {"lam2", "C++", "[=,&a](auto b)mutable{}();[this]{};f([]{return 1;});\n", 0},
    {"else", "C++", "if(a)b;else if(c)d;else{e;}if(f){}g;\n", 0},
    {"pp", "C++", "#ifndef A\n#elif B&&C>1\n#else // x\n#endif /* y */\n#warning z\n#define F(a,...) #a##b\n", 0},
    {"pp2", "C++", "a(\n#if X\nb,\n#endif\nc);if(x)\n#ifdef Y\n{\n#else\n{\n#endif\n}\n", 0},
    {"pp3", "C++", " # define  A \\\n \\\n b\n#\n#unk d\n#define B \"u\n#include <x\nc;\n", 0},
    {"chars", "C++", "'\\'';'\\\\';\"\\\"\";L'b';R\"(d)\";0b11;1e-5f;.5;1i;\"a\"_s;\n", 0},
    {"decls", "C++", "int*a,**b,&c=d,e[3],(*f)(int),g(h);const volatile char*const j;\n", 0},
    {"func", "C++", "static inline void A::B<C>::operator=(const A&);int main(int c,char**v){}\n", 0},
    {"macro", "C++", "MACRO(a,b)\nQ_OBJECT\nint c;ASSERT(x) y;DECL int z;\n", 0},
    {"bad", "C++", "class{if(while(struct;)}else}template<for(", 0},
    {"expr", "C++", "a[b](c)->d.e::f<g>(h)++ - -!*&i,j=k+=l%m^n|o&&p||q<<r!=s;\n", 0},
    {"bcom", "C++", "/*a*/int/*b*/c/*d*/(/*e*/)/*f*/{/*g*/}/*h*/", 0},
    {"anon", "C++", "struct{int a;}b;class C{public:private:protected:D e;}f,*g;\n", 0},
    {"c-kw", "C", "register int a;_Alignas(8)int d;_Static_assert(1,\"\");_Noreturn void f(void);_Complex e;\n", 0},
    {"c-ini", "C", "struct a{int b;}c={1,.d=2,[3]=4};enum e{f,g}h;\n", 0},
    {"c-st", "C", "if(a)b;else if(c)d;do e;while(f);for(;;){}int g(),h;\n", 0},
    {"cs5", "C#", "namespace A.B{[C(D=1)]public sealed class E<T>:F where T:new(){}}\n", 0},
    {"cs6", "C#", "delegate int A(int b);event C d;int this[int i]{get{return 1;}private set;}\n", 0},
    {"cs7", "C#", "try{}catch(A b){}finally{}using(a)b;unchecked(c);stackalloc int[3];\n", 0},
    {"cs8", "C#", "from a in b join c in d on e equals f into g let h=i orderby j descending group k by l;\n", 0},
    {"cs9", "C#", "async A f(){await g(out a,ref b);x??z;typeof(A);a is B;a as C;@\"e\"\"\";}\n", 0},
    {"cs10", "C#", "implicit operator int(A a){}~A(){}extern alias B;global::C d;x=>y;(a,b)=>{};\n", 0},
    {"java4", "Java", "package a.b;import static c.D.*;@E(f=1)public@interface G{int h()default 1;}\n", 0},
    {"java5", "Java", "class A<T extends B&C>implements D,E{A(){super();this(1);}static{}{}}\n", 0},
    {"java6", "Java", "try(A a=b){}catch(C e){}finally{}throw new F(){int g;};\n", 0},
    {"java7", "Java", "int[]a={1};a instanceof B;x->y;A::new;for(;;)break l;l:while(a)continue l;\n", 0},
    {"java8", "Java", "abstract native transient int a;enum B implements C{D(1){},E;F(){}}\n", 0},
    {"java9", "Java", "/** @a */int b;/**/c;//d\n'\\u0041';1L;a>>>=b;\n", 0},
    {"objc3", "Objective-C", "@protocol A<B>@optional-(void)c;@required+(id)d;@end @class E;\n", 0},
    {"objc4", "Objective-C", "@property(nonatomic,copy)A*b;@synthesize b=_b;@dynamic c;\n", 0},
    {"objc5", "Objective-C", "@try{@throw a;}@catch(B*c){}@finally{}@synchronized(d){}@autoreleasepool{}\n", 0},
    {"objc6", "Objective-C", "[a b:c d:e];[[F g]h];@selector(g:);@encode(int);@[i,j];@{k:l};@(1);^(int m){};\n", 0},
    {"objc7", "Objective-C", "@interface A(B)@end @compatibility_alias C D;for(id e in f){}@import g;\n", 0},
};
static const int NSNIP = sizeof(SNIP) / sizeof(SNIP[0]);
static int snipIndex(const char *n) { for (int i = 0; i < NSNIP; ++i) if (!strcmp(SNIP[i].name, n)) return i; return -1; }
// One edit of a text: NB arbitrary bytes below 0x80, inserted at, or replacing the byte at, an arbitrary position.
// In the quick tier only some positions are taken: every one (first part) or every third (second part) for insertion,
// every third or ninth for replacement; phase differs between the properties that use the same texts.
static void editText(S &src, int c, int nb, int tier, int phase) {
    bool part2 = c >= snipIndex("asm"); int n = (int)src.size(), pos = sym_choice(n + 1), st = part2 ? 3 : 1;
    bool ins = tier > 1 || pos % st == phase % st, rep = pos < n && (tier > 1 || pos % (3 * st) == phase % (3 * st));
    sym_assume(ins || rep);
    int mode = ins && rep ? sym_choice(2) : ins ? 1 : 0;      // 0 replace, 1 insert
    char b[4]; sym_make(b, nb);
    for (int i = 0; i < nb; ++i) sym_assume((b[i] & 0x80) == 0);
    if (mode == 0) src.replace(pos, 1, b, nb); else src.insert(pos, b, nb);
}
