// What the markup says about the text.  PROP 8: positions; 27: comments and literals; 28: preprocessor directives; 29: bracketed constructs
#include "h.hpp"
#include "snippets.hpp"
#ifndef PROP
#define PROP 8
#endif
#ifndef TIER
#define TIER 1
#endif
#ifndef NB
#define NB 1
#endif
#ifdef SNIPSEL
static const char *SEL[] = SNIPSEL; static const int NSEL = sizeof(SEL) / sizeof(SEL[0]);
static const Snip &snip(int c) { for (int i = 0; i < NSNIP; ++i) if (!strcmp(SNIP[i].name, SEL[c])) return SNIP[i]; return SNIP[0]; }
#else
static const int NSEL = NSNIP; static const Snip &snip(int c) { return SNIP[c]; }
#endif
#ifndef TAB
#define TAB 4
#endif
#if PROP == 8
static void checkAll(const S &doc, const S &want, int tab) {
    Xml x; bool ok = x.parse(doc.data(), doc.size());
    CHECK(ok && x.el.size() >= 2, "the document is well-formed XML");
    S t = x.txt(1);
    CHECK(t.size() == want.size() && !memcmp(t.data(), want.data(), want.size()), "the text of the unit is the source text");
    std::vector<int> line(want.size() + 1), col(want.size() + 1);
    int l = 1, c = 1;
    for (size_t i = 0; i < want.size(); ++i) { line[i] = l; col[i] = c; if (want[i] == '\n') { ++l; c = 1; } else if (want[i] == '\t') c = ((c - 1) / tab + 1) * tab + 1; else if (((unsigned char)want[i] & 0xC0) != 0x80) ++c; }
    line[want.size()] = l; col[want.size()] = c;
    std::vector<char> skip(want.size() + 1);
    for (size_t i = 2; i < x.el.size(); ++i) if (x.el[i].name == "comment" || x.el[i].name == "asm" || !x.el[i].name.compare(0, 4, "cpp:")) for (size_t k = x.el[i].b; k < x.el[i].e; ++k) skip[k - x.el[1].b] = 1;
    for (size_t i = 2; i < x.el.size(); ++i) {
        const El &e = x.el[i]; const S *s = e.get("pos:start"), *z = e.get("pos:end");
        size_t b = e.b - x.el[1].b, f = e.e - x.el[1].b;
        if (!s) { S n = Xml::local(e.name); if (e.nkids == 0 && f > b && (n == "name" || n == "literal" || n == "operator" || n == "comment" || n == "modifier" || n == "specifier")) { sym_note("no position: %s |%s|", n.c_str(), want.substr(b, f - b).c_str()); CHECK(0, "a token has a position"); } continue; }
        CHECK(z != 0, "a start position comes with an end position");
        int sl = 0, sc = 0, el = 0, ec = 0; sscanf(s->c_str(), "%d:%d", &sl, &sc); sscanf(z->c_str(), "%d:%d", &el, &ec);
        S n = Xml::local(e.name);
        if (n == "type" && e.get("ref")) {      // the type of a later name is that of the name before it
            int p = e.parent, q = -1; for (int k = 2; k < p; ++k) if (x.el[k].parent == x.el[p].parent && x.el[k].name == x.el[p].name) q = k;
            int y = -1; if (q >= 0) for (int k = q + 1; k < x.el[q].end; ++k) if (x.el[k].parent == q && x.el[k].name == "type") y = k;
            const S *ps = y < 0 ? 0 : x.el[y].get("pos:start"); if (ps) { sym_note("type %s after %s", s->c_str(), ps->c_str()); CHECK(*ps == *s, "the type of a later name is where that of the first is"); }
            continue;
        }
        if (e.b == e.e) continue;
        bool leaf = e.nkids == 0 && (n == "name" || n == "literal" || n == "operator" || n == "comment" || n == "modifier" || n == "specifier");
        // the first token of a compound element may follow white space, control characters, comments, directives and
        // __asm blocks, which the parser attaches to the output as it does comments
        size_t g = b; if (!leaf) while (g < f && !(line[g] == sl && col[g] == sc) && ((skip[g] && n != "asm") || Xml::sp(want[g]) || (unsigned char)want[g] < 32 || want[g] == 127 || (want[g] == '\\' && want[g + 1] == '\n'))) ++g;
        bool so = sl == line[g] && sc == col[g];
        bool eo = !leaf || (el == line[f] && ec == col[f] - 1);       // the column before the one that follows
        if (!leaf) {        // a compound element ends with its last token; skipped text and line continuations may follow inside it
            size_t h = f; while (h > b && (Xml::sp(want[h - 1]) || skip[h - 1] || (unsigned char)want[h - 1] < 32 || want[h - 1] == 127 || (want[h - 1] == '\\' && want[h] == '\n'))) --h;
            eo = h <= b || (el == line[h] && ec == col[h] - 1) || (el == line[f] && ec == col[f] - 1);
        }
        if (!so || !eo) sym_note("%s %s %s..%s text %zu-%zu |%s| expected %d:%d..%d:%d", so ? "END  " : "START", e.name.c_str(), s->c_str(), z->c_str(), b, f, want.substr(b, f - b).c_str(), line[b], col[b], line[f], col[f] - 1);
#ifndef DUMP
        if (leaf) { CHECK(so, "a token starts where its position says"); CHECK(eo, "a token ends where its position says"); }
        else { CHECK(so, "an element starts where its position says"); CHECK(eo, "an element ends where its position says"); }
#endif
    }
}
#endif
#if PROP == 27
// comments and literals of the source, found independently; false: the text is outside the claim
struct Tok { size_t b, e; int kind; };      // 1 block comment, 2 line comment, 3 string, 4 char
static bool word(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '$' || (unsigned char)c >= 0x80; }
static bool lex(const S &t, const S &lang, std::vector<Tok> &out) {
    size_t i = 0, n = t.size(); bool line = true;
    while (i < n) {
        char c = t[i]; size_t b = i;
        if (c == '\n') { line = true; ++i; }
        else if (Xml::sp(c) || (unsigned char)c < 32 || c == 127) ++i;
        else if (c == '/' && i + 1 < n && t[i + 1] == '*') { size_t e = t.find("*/", i + 2); Tok k = {b, e == S::npos ? n : e + 2, 1}; out.push_back(k); i = k.e; }
        else if (c == '/' && i + 1 < n && t[i + 1] == '/') { size_t e = t.find('\n', i); if (e == S::npos) e = n; if (t[e - 1] == '\\') return false; Tok k = {b, e, 2}; out.push_back(k); i = e; }
        else if (c == '#' && line && lang != "Java") {       // a directive: only those without quotes, comments and continuations, and no conditionals
            size_t e = t.find('\n', i); if (e == S::npos) e = n; S d = t.substr(i, e - i); size_t k = 1; while (k < d.size() && Xml::sp(d[k])) ++k; if (k < d.size() && (d[k] == 'i' || d[k] == 'e')) return false;
            for (char q : d) if (q == '"' || q == '\'' || q == '/' || q == '\\') return false; i = e; }
        else if (c == '"' || c == '\'') {
            line = false; if (t.compare(i, 3, "\"\"\"") == 0) return false;      // text blocks
            size_t p = i; while (p > 0 && word(t[p - 1])) --p; S pre = t.substr(p, i - p);
            if (c == '"' && lang == "C++" && (pre == "R" || pre == "LR" || pre == "uR" || pre == "UR" || pre == "u8R")) {
                size_t d = i + 1; while (d < n && t[d] != '(') { if (Xml::sp(t[d]) || t[d] == ')' || t[d] == '\\' || t[d] == '"' || (unsigned char)t[d] < 32 || d - i > 16) return false; ++d; }
                size_t e = d < n ? t.find(")" + t.substr(i + 1, d - i - 1) + "\"", d) : S::npos; if (e == S::npos) return false;
                Tok k = {p, e + (d - i) + 1, 3}; out.push_back(k); i = k.e; continue; }
            if (!pre.empty() && !(pre == "L" || pre == "U" || pre == "u" || pre == "u8")) return false;
            if (c == '"' && lang == "C#" && p == i && i && t[i - 1] == '@' && (i < 2 || t[i - 2] != '@')) {      // verbatim string
                size_t e = i + 1; while (e < n && (t[e] != '"' || (e + 1 < n && t[e + 1] == '"'))) e += t[e] == '"' ? 2 : 1; if (e >= n) return false;
                Tok k = {i - 1, e + 1, 3}; out.push_back(k); i = e + 1; continue; }
            if (p && (t[p - 1] == '@' || t[p - 1] == '$' || t[p - 1] == '\\')) return false;
            size_t e = i + 1; while (e < n && t[e] != c) { if (t[e] == '\n' || (unsigned char)t[e] < 32) return false; if (t[e] == '\\') ++e; ++e; } if (e >= n) return false;
            Tok k = {pre.size() && (c == '"') ? p : i, e + 1, c == '"' ? 3 : 4}; out.push_back(k); i = e + 1; }
        else { if (c == '\\') return false; line = false; ++i; }
    }
    return true;
}
static void checkAll(const S &doc, const S &want, int, const char *lang) {
    std::vector<Tok> tk; if (!lex(want, lang, tk)) { sym_assume(0); return; }
    Xml x; bool ok = x.parse(doc.data(), doc.size()); CHECK(ok && x.el.size() >= 2, "the document is well-formed XML");
    S t = x.txt(1); CHECK(t.size() == want.size() && !memcmp(t.data(), want.data(), want.size()), "the text of the unit is the source text");
    std::vector<Tok> cm; for (auto &k : tk) if (k.kind < 3) cm.push_back(k);
    size_t at = 0, o = x.el[1].b;
    for (size_t i = 2; i < x.el.size(); ++i) {
        S n = x.el[i].name; size_t b = x.el[i].b - o, e = x.el[i].e - o;
        if (n == "comment") {
            sym_note("comment [%s]", want.substr(b, e - b).c_str());
            CHECK(at < cm.size(), "a comment element is a comment of the source"); const Tok &k = cm[at++];
            CHECK(k.b == b && k.e == e, "a comment element is exactly a comment of the source");
            const S *ty = x.el[i].get("type"); CHECK(ty && *ty == (k.kind == 1 ? "block" : "line"), "the type of a comment is that of the comment");
        } else if (n == "literal") {
            const S *ty = x.el[i].get("type"); CHECK(ty != 0, "a literal has a type"); if (*ty != "string" && *ty != "char") continue;
            bool in = false; for (auto &k : tk) in |= k.kind == (*ty == "string" ? 3 : 4) && k.b == b && k.e == e; sym_note("%s literal [%s]", ty->c_str(), want.substr(b, e - b).c_str());
            CHECK(in, "a string or character literal is exactly one of the source");
        }
    }
    CHECK(at == cm.size(), "every comment of the source is a comment element");
#ifndef EDITS   // in broken code a quote may be left as text
    for (auto &k : tk) if (k.kind > 2) { bool in = false; for (size_t i = 2; i < x.el.size(); ++i) in |= x.el[i].name == "literal" && x.el[i].b - o == k.b && x.el[i].e - o == k.e; sym_note("source literal [%s]", want.substr(k.b, k.e - k.b).c_str()); CHECK(in, "every string or character literal of the source is a literal element"); }
#endif
}
#endif
#if PROP == 28
// the lines of directives, found independently; false: the text is outside the claim
struct Dir { size_t b, e; };
static bool dirs(const S &t, std::vector<Dir> &out) {
    size_t i = 0, n = t.size(); bool line = true, in = false; Dir d = {0, 0};
    while (i < n) {
        char c = t[i];
        if (c == '\n') { if (in) { d.e = i; out.push_back(d); in = false; } line = true; ++i; }
        else if (c == '\\' && i + 1 < n && t[i + 1] == '\n') i += 2;
        else if (Xml::sp(c) || (unsigned char)c < 32 || c == 127) ++i;
        else if (c == '/' && i + 1 < n && t[i + 1] == '*') { size_t e = t.find("*/", i + 2); if (e == S::npos) { if (in) { d.e = n; out.push_back(d); } return true; } i = e + 2; }
        else if (c == '/' && i + 1 < n && t[i + 1] == '/') { size_t e = t.find('\n', i); if (e == S::npos) e = n; if (t[e - 1] == '\\') return false; i = e; }
        else if (c == '"' || c == '\'') {
            line = false; size_t p = i; while (p > 0 && (isalnum((unsigned char)t[p - 1]) || t[p - 1] == '_')) --p; if (t[p] == 'R' || (p && t[p - 1] == '@')) return false;
            size_t e = i + 1; while (e < n && t[e] != c && !(in && t[e] == '\n')) { if (t[e] == '\\') { ++e; if (e + 1 < n && t[e] == '\\' && t[e + 1] == '\n') return false; } ++e; }
            i = e >= n ? n : t[e] == '\n' ? e : e + 1; }
        else { if (c == '#' && line && !in) { in = true; d.b = i; } line = false; ++i; }
    }
    if (in) { d.e = n; out.push_back(d); }
    return true;
}
static void checkAll(const S &doc, const S &want, int, const char *lang) {
    if (!strcmp(lang, "Java")) return;
    // an assembler block is a single directive-like whole, and may not have an end
    if (want.find("asm") != S::npos) { int n = 0; for (char c : want) n += c == '{' ? 1 : c == '}' ? -1 : 0; if (n) { sym_assume(0); return; } }
    std::vector<Dir> ds; if (!dirs(want, ds)) { sym_assume(0); return; }
    Xml x; bool ok = x.parse(doc.data(), doc.size()); CHECK(ok && x.el.size() >= 2, "the document is well-formed XML");
    S t = x.txt(1); CHECK(t.size() == want.size() && !memcmp(t.data(), want.data(), want.size()), "the text of the unit is the source text");
    size_t at = 0, o = x.el[1].b;
    for (size_t i = 2; i < x.el.size(); ++i) {
        S n = x.el[i].name; size_t b = x.el[i].b - o, e = x.el[i].e - o; if (n.compare(0, 4, "cpp:")) continue;
        const El &u = x.el[x.el[i].parent]; size_t up = x.el[i].parent; while (up > 1 && x.el[up].name.compare(0, 4, "cpp:")) up = x.el[up].parent;
        (void)u; if (up > 1) continue;
        sym_note("%s [%s]", n.c_str(), want.substr(b, e - b).c_str());
        CHECK(at < ds.size() && ds[at].b == b, "each directive is an element that starts where the directive does");
        CHECK(e <= ds[at].e, "a directive ends on its line"); ++at;
    }
    if (at < ds.size()) sym_note("unmarked [%s]", want.substr(ds[at].b, ds[at].e - ds[at].b).c_str());
    CHECK(at == ds.size(), "every directive is marked up");
}
#endif
#if PROP == 29
static void checkAll(const S &doc, const S &want, int, const char *) {
    Xml x; bool ok = x.parse(doc.data(), doc.size());
    CHECK(ok && x.el.size() >= 2, "the document is well-formed XML");
    S t = x.txt(1); CHECK(t.size() == want.size() && !memcmp(t.data(), want.data(), want.size()), "the text of the unit is the source text");
    // innermost element of each byte, and what is not code
    size_t o = x.el[1].b, n = want.size(); std::vector<int> in(n, 1); std::vector<char> skip(n);
    for (size_t i = 2; i < x.el.size(); ++i) for (size_t k = x.el[i].b; k < x.el[i].e; ++k) { in[k - o] = i; const S &m = x.el[i].name; if (m == "comment" || m == "literal" || m == "asm" || !m.compare(0, 4, "cpp:")) skip[k - o] = 1; }
    if (want.find('#') != S::npos || want.find("asm") != S::npos) { sym_assume(0); return; }
    std::vector<size_t> st; std::vector<std::pair<size_t, size_t> > pr;
    for (size_t k = 0; k < n; ++k) {
        if (skip[k]) continue;
        if (want[k] == '(' || want[k] == '[' || want[k] == '{') st.push_back(k);
        else if (want[k] == ')' || want[k] == ']' || want[k] == '}') { if (st.empty() || want[st.back()] != (want[k] == ')' ? '(' : want[k] == ']' ? '[' : '{')) { sym_assume(0); return; } pr.push_back(std::make_pair(st.back(), k)); st.pop_back(); }
    }
    if (!st.empty()) { sym_assume(0); return; }
    for (auto &p : pr) {
        int a = in[p.first], b = in[p.second]; while (x.el[a].name == "operator" || x.el[a].name == "name") a = x.el[a].parent; while (x.el[b].name == "operator" || x.el[b].name == "name") b = x.el[b].parent;
        sym_note("%zu %c in %s, %zu %c in %s", p.first, want[p.first], x.el[a].name.c_str(), p.second, want[p.second], x.el[b].name.c_str());
        CHECK(a == b, "brackets that match are in the same element");
    }
}
#endif
#if PROP == 28 && !defined(EDITS)
static const char *LG[] = {"C++", "C", "C#", "Objective-C"};
static const char *CX[][3] = {{"code", "x;\n", "y;\n#b\nz;"}, {"define", "x;\n#define A ", "\ny;\n#undef A\n"}, {"macro", "#define A(", "\ny;\n#undef A\n"}, {"include", "#include ", "\ny;\n#undef A\n"}, {"if", "#if ", "\ny;\n#endif \nz;"}, {"else", "#if A\nx;\n#el", "\ny;\n#endif \nz;"}, {"error", "#error ", "\ny;\n"}, {"pragma", "#pragma ", "\ny;\n"}, {"line", "#line ", "\ny;\n"}, {"block", "{ #x\n", "#y\n}\n"}, {"statement", "if (a\n#define ", "\n#endif\n) x;\n"}, {"unknown", "#a", "\ny;\n"}, {"end of text", "x;\n#define A ", ""}, {"string", "x = \"", "\n#y\nz;\"\n#w\n"}};
static const int NCX = sizeof(CX) / sizeof(CX[0]); static const char A[] = "#\n\\ a\"'/*<(1{;";
#ifndef LEN
#define LEN 3
#endif
extern "C" {
const char *sym_config_name(int c) { static char b[64]; if (c >= 4 * NCX) return 0; snprintf(b, sizeof b, "%s, %s", LG[c / NCX], CX[c % NCX][0]); return b; }
void sym_setup(void) {}
void sym_harness(int c) {
    const char *lang = LG[c / NCX]; const char *const *x = CX[c % NCX]; char t[LEN]; sym_make(t, LEN);
    for (int i = 0; i < LEN; ++i) { bool in = false; for (const char *q = A; *q; ++q) in |= t[i] == *q; sym_assume(in); }
    S src = S(x[1]) + S(t, LEN) + x[2];
    POpt o; o.lang = lang; Parsed r = parseDoc(src.data(), src.size(), o);
    CHECK(r.rc_parse == 0 && r.rc_write == 0, "every text parses"); outDoc(r.doc); sym_note("%s\n%s", src.c_str(), r.doc.c_str());
    checkAll(r.doc, normEol(src), o.tab, lang); sym_reach("parsed and checked");
}
}
#elif PROP == 27 && !defined(EDITS)
// short texts over the characters that matter, in contexts
static const char *LG[] = {"C++", "C", "Java", "C#", "Objective-C"};
static const char *CX[][3] = {{"code", "x;", ";\n/*y*/z;\n"}, {"before a comment", "x;", "b*/;\"y\";//z\n"}, {"block comment", "x;/*", "*/;y='z';\n"}, {"doc comment", "/*!", "*/;y=\"z\";\n"}, {"javadoc comment", "/**", "*/y;\n"}, {"line comment", "x;//", "\ny;/*z*/\n"}, {"string", "x=\"", "\";//y\n"}, {"char", "x='", "';/*y*/\n"}, {"prefixed", "x=f(", "\"y\",'z');//\n"}, {"raw string", "x=R\"a(", ")a\";//y\n"}, {"raw string without delimiter", "x=R\"(", ")\";//y\n"}, {"raw string after its delimiter", "x=R\"a()a", ")a\";//y\n"}, {"verbatim string", "x=@\"", "\";//y\n"}, {"end of text", "x;\n", ""}, {"after a verbatim string", "x=@\"\";y=\"", "\";//z\n"}};
#ifndef LEN
#define LEN 3
#endif
extern "C" {
const char *sym_config_name(int c) { static char b[64]; if (c >= 75) return 0; snprintf(b, sizeof b, "%s, %s", LG[c / 15], CX[c % 15][0]); return b; }
void sym_setup(void) {}
void sym_harness(int c) {
    const char *lang = LG[c / 15]; const char *const *x = CX[c % 15]; if ((c % 15 >= 9 && c % 15 <= 11 && c / 15) || ((c % 15 == 12 || c % 15 == 14) && c / 15 != 3)) { sym_assume(0); return; }
    static const char A[] = "/*!\"'\\\na LR()#@8"; char t[LEN]; sym_make(t, LEN); int len = LEN;
    for (int i = 0; i < LEN; ++i) { bool in = false; for (const char *q = A; *q; ++q) in |= t[i] == *q; sym_assume(in); }
    S src = S(x[1]) + S(t, len) + x[2];
    POpt o; o.lang = lang; Parsed r = parseDoc(src.data(), src.size(), o);
    CHECK(r.rc_parse == 0 && r.rc_write == 0, "every text parses"); outDoc(r.doc); sym_note("%s\n%s", src.c_str(), r.doc.c_str());
    checkAll(r.doc, normEol(src), o.tab, lang); sym_reach("parsed and checked");
}
}
#else
extern "C" {
#ifndef STEP
#define STEP 1
#endif
const char *sym_config_name(int c) { return c < NSEL ? snip(c).name : 0; }
void sym_setup(void) {}
void sym_harness(int c) {
    const Snip &s = snip(c);
    S src = s.text;
#ifndef DUMP
    editText(src, snipIndex(s.name), NB, TIER, 1);
#endif
    POpt o; o.lang = s.lang; o.opts = s.opts;
#if PROP == 8
    o.opts |= SRCML_OPTION_POSITION; o.opts &= ~SRCML_OPTION_CPP_TEXT_ELSE; o.tab = TAB;
#endif
    Parsed r = parseDoc(src.data(), src.size(), o);
    CHECK(r.rc_parse == 0 && r.rc_write == 0, "every text parses");
    outDoc(r.doc);
    sym_note("%s", r.doc.c_str());
#if PROP != 8
    checkAll(r.doc, normEol(src), o.tab, s.lang);
#else
    checkAll(r.doc, normEol(src), o.tab);
#endif
    sym_reach("parsed and checked");
}
}
#endif
