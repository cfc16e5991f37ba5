// The public interface around the parser: namespaces, options, languages, clones, writing by element, status codes,
// independence of archives, convenience functions.
#include "h.hpp"
#ifndef PROP
#define PROP 15
#endif
#ifndef TIER
#define TIER 1
#endif
static bool eq(const S &a, const S &b) { return a.size() == b.size() && !memcmp(a.data(), b.data(), b.size()); }
static bool eq(const char *a, const S &b) { return a && strlen(a) == b.size() && !memcmp(a, b.data(), b.size()); }
static bool eqz(const char *a, const char *b) { return (!a && !b) || (a && b && strlen(a) == strlen(b) && !memcmp(a, b, strlen(a))); }
static void wf(const S &doc, Xml &x) {
    bool ok = x.parse(doc.data(), doc.size());
    if (!ok) sym_note("not well-formed: %s at %zu\n%s", x.why, x.pos, doc.c_str());
    CHECK(ok, "the document is well-formed XML");
}
static S nsOf(const Xml &x, int e, const S &qname, bool attr = false) {
    size_t c = qname.find(':'); S pre = c == S::npos ? S() : qname.substr(0, c); if (attr && c == S::npos) return S();
    S d = pre.empty() ? S("xmlns") : "xmlns:" + pre;
    for (int i = e; i >= 0; i = x.el[i].parent) if (const S *v = x.el[i].get(d.c_str())) return *v;
    return S();
}
#define SRC "http://www.srcML.org/srcML/src"
#define CPP "http://www.srcML.org/srcML/cpp"
#define POS "http://www.srcML.org/srcML/position"
#define OMP "http://www.srcML.org/srcML/openmp"
#define DIFF "http://www.srcML.org/srcDiff"
static S writeUnit(srcml_archive *a, const char *lang, const S &src, int *rc = 0) {
    srcml_unit *u = srcml_unit_create(a); if (lang) srcml_unit_set_language(u, lang); srcml_unit_set_src_encoding(u, "UTF-8");
    int r = srcml_unit_parse_memory(u, src.data(), src.size()); if (r == 0) r = srcml_archive_write_unit(a, u); if (rc) *rc = r; S s = nz(srcml_unit_get_srcml(u)); srcml_unit_free(u); return s;
}

#if PROP == 13
// ---- namespaces
static const char *CN[] = {"lookup", "document", "solitary document", "positions", "read"};
extern "C" {
const char *sym_config_name(int c) { return c < 5 ? CN[c] : 0; }
void sym_setup(void) {}
void sym_harness(int c) {
    static const char *URI[] = {SRC, CPP, "http://u", POS, OMP};
    std::vector<std::pair<S, S> > m; m.push_back(std::make_pair(S(), S(SRC)));
    srcml_archive *a = srcml_archive_create(); srcml_archive_disable_hash(a); if (c == 2) srcml_archive_enable_solitary_unit(a); if (c == 3) srcml_archive_enable_option(a, SRCML_OPTION_POSITION);
    int n = sym_choice(TIER > 1 ? 4 : 3); bool cppdecl = false, posdecl = c == 3; char b[1]; sym_make(b, 1); sym_assume(b[0] == 'a' || b[0] == 'Z' || b[0] == '_');
    for (int i = 0; i < n; ++i) {
        int k = sym_choice(5), w = sym_choice(i == 0 ? 3 : 2); S pre = w == 2 ? S("") : w == 1 ? S(1, b[0]) + (char)('0' + i) : S(1, "xyz"[i]) + "-1";
        bool found = false; size_t at = 0; for (size_t j = 0; j < m.size(); ++j) if (m[j].second == URI[k]) { found = true; at = j; }
        // the prefix of another namespace is not taken
        for (size_t j = 0; j < m.size(); ++j) if (!(found && j == at)) sym_assume(m[j].first != pre);
        if (k != 0) sym_assume(!pre.empty());      // attributes cannot have the default prefix; cpp and the others stay prefixed
        CHECK(srcml_archive_register_namespace(a, pre.c_str(), URI[k]) == 0, "a namespace is registered");
        if (found) m[at].first = pre; else m.push_back(std::make_pair(pre, S(URI[k])));
        if (k == 1) cppdecl = true; if (k == 3) posdecl = true;
    }
    // lookups agree with what was registered
    CHECK(srcml_archive_get_namespace_size(a) == m.size(), "the number of namespaces");
    for (size_t j = 0; j < m.size(); ++j) {
        CHECK(eq(srcml_archive_get_namespace_prefix(a, j), m[j].first), "the prefix at a position");
        CHECK(eq(srcml_archive_get_namespace_uri(a, j), m[j].second), "the URI at a position");
        CHECK(eq(srcml_archive_get_prefix_from_uri(a, m[j].second.c_str()), m[j].first), "the prefix of a URI");
        CHECK(eq(srcml_archive_get_uri_from_prefix(a, m[j].first.c_str()), m[j].second), "the URI of a prefix");
    }
    unsigned long long out; sym_make(&out, 8); sym_assume(out >= m.size());
    CHECK(srcml_archive_get_namespace_prefix(a, out) == 0 && srcml_archive_get_namespace_uri(a, out) == 0, "there is nothing outside the positions");
    CHECK(srcml_archive_get_prefix_from_uri(a, "http://none") == 0 && srcml_archive_get_uri_from_prefix(a, "none") == 0, "an unknown URI or prefix is not found");
    CHECK(!cppdecl || (srcml_archive_get_options(a) & SRCML_OPTION_CPP), "the namespace of an option enables it");
    CHECK(!posdecl || (srcml_archive_get_options(a) & SRCML_OPTION_POSITION), "the namespace of an option enables it");
    if (c == 0) { srcml_archive_free(a); sym_reach("namespaces checked"); return; }
    Buf o; CHECK(srcml_archive_write_open_memory(a, &o.p, &o.n) == 0, "opens");
    S src = sym_choice(2) ? "#define a\nb;\n" : "b;\x01\n"; int rc;
    writeUnit(a, "C++", src, &rc); CHECK(rc == 0, "parsed and written");
    if (c != 2) { writeUnit(a, "C", "#if x\n#endif\n", &rc); CHECK(rc == 0, "parsed and written"); }
    srcml_archive_close(a); srcml_archive_free(a); S d = o.str(); srcml_memory_free(o.p); sym_out(d.data(), d.size()); sym_note("%s", d.c_str());
    Xml x; wf(d, x); int u = c == 2 ? 0 : 1;
    CHECK(eq(x.txt(u), src), "the text of the unit is the source");
    S want = m[0].first;
    for (int i = 0; i < (int)x.el.size(); ++i) {
        S l = Xml::local(x.el[i].name), ns = nsOf(x, i, x.el[i].name);
        bool cpp = l == "define" || l == "directive" || l == "macro" || l == "if" || l == "endif"; if (l == "name" || l == "expr" || l == "expr_stmt" || l == "unit" || l == "escape") cpp = false;
        if (l == "macro") cpp = true;
        CHECK(ns == (cpp ? CPP : SRC), "every element is in its namespace");
        for (size_t j = 0; j < m.size(); ++j) if (m[j].second == ns) { S q = m[j].first.empty() ? l : m[j].first + ":" + l; CHECK(x.el[i].name == q, "every element has the registered prefix"); }
        if (posdecl && i > u && l != "escape") { bool ok = false; for (size_t k = 0; k < x.el[i].att.size(); ++k) if (Xml::local(x.el[i].att[k].name) == "start") ok = nsOf(x, i, x.el[i].att[k].name, true) == POS; if (l != "unit") CHECK(ok, "positions are in their namespace"); }
    }
    for (size_t j = 1; j < m.size(); ++j) { S q = "xmlns:" + m[j].first; if (m[j].second == OMP || (m[j].second == CPP && c != 2) || (m[j].second == CPP && x.text.find('#') == S::npos && !cppdecl)) continue; const S *v = x.el[0].get(q.c_str()); CHECK(v && *v == m[j].second, "registered namespaces are declared on the root"); }
    int r2; S back = unparseDoc(d, 0, &r2); CHECK(r2 == 0 && eq(back, src), "the source comes back");
    if (c == 4) {
        srcml_archive *r = srcml_archive_create(); CHECK(srcml_archive_read_open_memory(r, d.data(), d.size()) == 0, "opens");
        for (size_t j = 0; j < m.size(); ++j) if (m[j].second != OMP && m[j].second != CPP) { CHECK(eq(srcml_archive_get_prefix_from_uri(r, m[j].second.c_str()), m[j].first), "the prefix of a namespace is read back"); CHECK(eq(srcml_archive_get_uri_from_prefix(r, m[j].first.c_str()), m[j].second), "the namespace of a prefix is read back"); }
        // a copy of the unit in a new archive with the same registrations has the same elements
        srcml_unit *w = srcml_archive_read_unit(r); CHECK(w != 0, "unit"); S body = nz(srcml_unit_get_srcml_inner(w));
        srcml_archive *k = srcml_archive_clone(r); Buf p; CHECK(srcml_archive_write_open_memory(k, &p.p, &p.n) == 0, "opens"); CHECK(srcml_archive_write_unit(k, w) == 0, "copied");
        srcml_unit_free(w); srcml_archive_close(r); srcml_archive_free(r); srcml_archive_close(k); srcml_archive_free(k); S d2 = p.str(); srcml_memory_free(p.p); sym_note("%s", d2.c_str());
        Xml y; wf(d2, y); CHECK(eq(y.txt(1), src), "the copy has the same text");
        int e = x.el[1].end; CHECK(y.el[1].end - 1 == e - 1, "the copy has the same elements"); for (int i = 1; i < e; ++i) CHECK(y.el[i].name == x.el[i].name && nsOf(y, i, y.el[i].name) == nsOf(x, i, x.el[i].name), "the copy has the same elements");
    }
    sym_reach("namespaces checked");
}
}
#elif PROP == 14
// ---- options
static const char *CN[] = {"sequence", "tabstop", "archive", "solitary", "way"};
// the document depends on which options are in effect, not on the calls that led there
static S optDoc(srcml_archive *a, const char *lang, const S &src) { Buf o; srcml_archive_disable_hash(a); srcml_archive_write_open_memory(a, &o.p, &o.n); int rc; writeUnit(a, lang, src, &rc); CHECK(rc == 0, "parsed and written"); srcml_archive_close(a); S d = o.str(); srcml_memory_free(o.p); return d; }
static void way() {
    static const unsigned BIT[] = {SRCML_OPTION_POSITION, SRCML_OPTION_CPP_TEXT_ELSE, SRCML_OPTION_CPP_MARKUP_IF0, SRCML_OPTION_CPP, SRCML_OPTION_NO_XML_DECL, SRCML_OPTION_STORE_ENCODING};
    srcml_archive *a = srcml_archive_create(), *b = srcml_archive_create(); unsigned model = 0; int n = 1 + sym_choice(TIER > 1 ? 3 : 2);
    for (int i = 0; i < n; ++i) { int op = sym_choice(3); unsigned v = 0; int m = sym_choice(i == 0 ? 64 : 8); for (int k = 0; k < 6; ++k) if ((i == 0 ? m >> k & 1 : m == k || m == 7)) v |= BIT[k];
        if (op == 0) { srcml_archive_set_options(a, v); model = v; } else if (op == 1) { srcml_archive_enable_option(a, v); model |= v; } else { srcml_archive_disable_option(a, v); model &= ~v; } }
    for (int k = 5; k >= 0; --k) if (model & BIT[k]) srcml_archive_enable_option(b, BIT[k]);
    int l = sym_choice(2); int sol = l == 0 ? sym_choice(2) : 0; if (sol) { srcml_archive_enable_solitary_unit(a); srcml_archive_enable_solitary_unit(b); }
    const char *lang = l == 0 ? "Java" : "C++"; S src = sym_choice(2) ? "a;\n#if 0\nb;\n#else\nc;\n#endif\n" : "a;\n";
    S x = optDoc(a, lang, src), y = optDoc(b, lang, src); outDoc(x); sym_note("options %x: %s\n against %s", model, x.c_str(), y.c_str());
    CHECK(eq(x, y), "the same options give the same document however they were set");
    srcml_archive_free(a); srcml_archive_free(b);
}
extern "C" {
const char *sym_config_name(int c) { return c < 5 ? CN[c] : 0; }
void sym_setup(void) {}
void sym_harness(int c) {
    if (c == 4) { way(); sym_reach("options checked"); return; }
    srcml_archive *a = srcml_archive_create(); const unsigned ALL = SRCML_OPTION_POSITION | SRCML_OPTION_CPP_TEXT_ELSE | SRCML_OPTION_CPP_MARKUP_IF0 | SRCML_OPTION_CPP | SRCML_OPTION_NO_XML_DECL | SRCML_OPTION_STORE_ENCODING;
    unsigned model = 0; bool hash = true, solitary = false; size_t tab = 8;
    CHECK(srcml_archive_get_options(a) == 0 && srcml_archive_get_tabstop(a) == 8, "the defaults");
    int n = c == 0 ? (TIER > 1 ? 4 : 3) : 1 + sym_choice(2);
    for (int i = 0; i < n; ++i) {
        int op = sym_choice(c == 0 ? 8 : 3); size_t v = 0; if (op < 3) { unsigned char q[2]; sym_make(q, 2); v = q[0] | (unsigned)q[1] << 8; sym_assume((v & ~(size_t)ALL) == 0); if (c != 0) sym_assume((v & (SRCML_OPTION_NO_XML_DECL | SRCML_OPTION_STORE_ENCODING)) == 0); }
        int rc = 0;
        if (op == 0) { rc = srcml_archive_set_options(a, v); model = (unsigned)v; }
        else if (op == 1) { rc = srcml_archive_enable_option(a, v); model |= (unsigned)v; }
        else if (op == 2) { rc = srcml_archive_disable_option(a, v); model &= ~(unsigned)v; }
        else if (op == 3) { rc = srcml_archive_enable_hash(a); hash = true; } else if (op == 4) { rc = srcml_archive_disable_hash(a); hash = false; }
        else if (op == 5) { rc = srcml_archive_enable_solitary_unit(a); solitary = true; } else if (op == 6) { rc = srcml_archive_disable_solitary_unit(a); solitary = false; }
        else { unsigned t; sym_make(&t, 4); sym_assume(t > 0); tab = t; rc = srcml_archive_set_tabstop(a, t); }
        CHECK(rc == 0, "settings are accepted");
        CHECK((unsigned)srcml_archive_get_options(a) == model, "the options are those that were set");
        CHECK(srcml_archive_get_tabstop(a) == tab, "the tab size is the one that was set");
        CHECK(!srcml_archive_has_hash(a) == !hash, "whether there is a hash is set only by its own functions");
        CHECK(!srcml_archive_is_solitary_unit(a) == !solitary, "whether the unit is solitary is set only by its own functions");
    }
    if (c == 0) { srcml_archive_free(a); sym_reach("options checked"); return; }
    if (c == 1) { tab = 1 + sym_choice(12); srcml_archive_set_tabstop(a, tab); srcml_archive_enable_option(a, SRCML_OPTION_POSITION); model |= SRCML_OPTION_POSITION; }
    if (c == 3) srcml_archive_enable_solitary_unit(a);
    Buf o; CHECK(srcml_archive_write_open_memory(a, &o.p, &o.n) == 0, "opens"); int rc; S src = "#if 0\na\t;\n#endif\n#if x\n#else\nb;\n#endif\n";
    writeUnit(a, "C++", src, &rc); CHECK(rc == 0, "parsed and written"); if (c != 3) { writeUnit(a, "C", "c;\n", &rc); CHECK(rc == 0, "parsed and written"); }
    srcml_archive_close(a); srcml_archive_free(a); S d = o.str(); srcml_memory_free(o.p); outDoc(d); sym_note("%s", d.c_str());
    Xml x; wf(d, x); int u = c == 3 ? 0 : 1; CHECK(eq(x.txt(u), src), "the text of the unit is the source");
    bool pos = false; for (size_t i = 0; i < x.el.size(); ++i) if (x.el[i].get("pos:start")) pos = true;
    CHECK(pos == !!(model & SRCML_OPTION_POSITION), "there are positions only with that option");
    // the first branch of #if 0, and what follows #else, are marked up as the options say
    bool ma = false, mb = false; for (size_t i = u; i < x.el.size(); ++i) if (Xml::local(x.el[i].name) == "name") { if (eq(x.txt((int)i), "a")) ma = true; if (eq(x.txt((int)i), "b")) mb = true; }
    CHECK(ma == !!(model & SRCML_OPTION_CPP_MARKUP_IF0), "#if 0 is marked up only with that option");
    CHECK(mb == (!(model & SRCML_OPTION_CPP_TEXT_ELSE)), "#else is left as text only with that option");
    // they are recorded in the document and come back
    srcml_archive *r = srcml_archive_create(); CHECK(srcml_archive_read_open_memory(r, d.data(), d.size()) == 0, "opens");
    srcml_unit *w = srcml_archive_read_unit(r); CHECK(w != 0, "unit");
    sym_note("options %x read %x", model, srcml_archive_get_options(r));
    const unsigned PERS = SRCML_OPTION_POSITION | SRCML_OPTION_CPP_TEXT_ELSE | SRCML_OPTION_CPP_MARKUP_IF0;
    CHECK(((unsigned)srcml_archive_get_options(r) & PERS) == (model & PERS), "the options are read back from the document");
    if (pos) CHECK(srcml_archive_get_tabstop(r) == tab, "the tab size is read back from the document");
    CHECK(!srcml_archive_is_solitary_unit(r) == (c != 3), "it is read as it was written");
    srcml_unit_free(w); srcml_archive_close(r); srcml_archive_free(r);
    sym_reach("options checked");
}
}
#elif PROP == 15
// ---- languages and file extensions
static const char *CN[] = {"extension", "registered", "parse by extension", "language name", "explicit language"};
static const struct { const char *e, *l; } STD[] = {{"c", "C"}, {"h", "C"}, {"i", "C"}, {"cpp", "C++"}, {"CPP", "C++"}, {"cp", "C++"}, {"hpp", "C++"}, {"cxx", "C++"}, {"hxx", "C++"}, {"cc", "C++"}, {"hh", "C++"}, {"c++", "C++"}, {"h++", "C++"}, {"C", "C++"}, {"H", "C++"}, {"tcc", "C++"}, {"ii", "C++"}, {"java", "Java"}, {"aj", "Java"}, {"cs", "C#"}};
static const char *LANGS[] = {"C", "C++", "C#", "Java", "Objective-C"};
// the language of a file name, with the user's registrations, latest first
static const char *model(S f, const std::vector<std::pair<S, const char *> > &reg) {
    if (f.size() > 3 && f.compare(f.size() - 3, 3, ".gz") == 0) f.resize(f.size() - 3);
    size_t dot = S::npos; for (size_t i = 0; i < f.size(); ++i) if (f[i] == '.') dot = i;
    if (dot == S::npos) return 0;
    S e = f.substr(dot + 1);
    for (size_t i = reg.size(); i-- > 0; ) if (eq(reg[i].first, e)) return reg[i].second;
    for (size_t i = 0; i < sizeof STD / sizeof *STD; ++i) if (eq(e, S(STD[i].e))) return STD[i].l;
    return 0;
}
extern "C" {
const char *sym_config_name(int c) { return c < 5 ? CN[c] : 0; }
void sym_setup(void) {}
void sym_harness(int c) {
    std::vector<std::pair<S, const char *> > reg; srcml_archive *a = srcml_archive_create(); srcml_archive_disable_hash(a);
    if (c == 3) {
        char b[6]; int n = sym_choice(4); sym_make(b, n); b[n] = 0; for (int i = 0; i < n; ++i) sym_assume(b[i] != 0);
        S l = S(sym_choice(3) == 0 ? "" : "C") + b; const char *want = 0; for (int i = 0; i < 5; ++i) if (eq(l, LANGS[i])) want = LANGS[i];
        if (sym_choice(2)) { l = S("Objective-") + b; want = eq(l, "Objective-C") ? "Objective-C" : 0; }
        CHECK(!srcml_check_language(l.c_str()) == !want, "exactly the listed languages are supported");
        bool listed = false; for (size_t i = 0; i < srcml_get_language_list_size(); ++i) if (eq(srcml_get_language_list(i), l)) listed = true;
        CHECK(listed == (want != 0), "the list has the supported languages");
        int rc = srcml_archive_register_file_extension(a, "q", l.c_str()); 
        CHECK(want ? rc == 0 : true, "a supported language can be registered");
        if (want) CHECK(eqz(srcml_archive_check_extension(a, "x.q"), want), "the registered language is found");
        srcml_archive_free(a); sym_reach("language checked"); return;
    }
    int nreg = c == 1 ? 1 + sym_choice(2) : c == 2 ? sym_choice(2) : 0;
    char r[4]; sym_make(r, 2); for (int i = 0; i < 2; ++i) sym_assume(r[i] == 'c' || r[i] == 'q' || r[i] == '+' || r[i] == 'C');
    for (int i = 0; i < nreg; ++i) {
        S e = i == 0 ? S(r, 1 + sym_choice(2)) : S("c"); const char *l = LANGS[sym_choice(4)]; bool bad = i == 1 && sym_choice(2);
        int rc = srcml_archive_register_file_extension(a, e.c_str(), bad ? "Cobol" : l);
        CHECK((rc != 0) == bad, "an unknown language is refused");
        if (!bad) reg.push_back(std::make_pair(e, l));
    }
    static const char *PRE[] = {"vfs_a.", "vfs_", "vfs_d.h/b.", "."}; char b[4]; int n = c == 2 || c == 4 ? 2 : 3 - sym_choice(2); sym_make(b, n); b[n] = 0; for (int i = 0; i < n; ++i) { if (c == 2 || c == 4) sym_assume(b[i] == 'c' || b[i] == 'C' || b[i] == 'h' || b[i] == 's' || b[i] == 'q' || b[i] == '.' || b[i] == (char)0xe9 || b[i] == '+'); else sym_assume(b[i] > 32 && b[i] != 127); }
    S f = S(PRE[c == 2 ? 0 : sym_choice(c == 4 ? 2 : 4)]) + b + (sym_choice(3) == 2 ? ".gz" : "");
    const char *want = model(f, reg);
    if (c < 2) { const char *g = srcml_archive_check_extension(a, f.c_str()); sym_note("%s -> %s want %s", f.c_str(), g ? g : "none", want ? want : "none"); CHECK(eqz(g, want), "the language of a file name is that of its extension"); if (c == 0) CHECK(eqz(srcml_check_extension(f.c_str()), want), "the default languages are the same everywhere"); srcml_archive_free(a); sym_reach("language checked"); return; }
    S text = "a;\n"; sym_file(f.c_str(), text.data(), text.size());
    Buf o; CHECK(srcml_archive_write_open_memory(a, &o.p, &o.n) == 0, "opens"); srcml_unit *u = srcml_unit_create(a);
    int set = c == 4 ? 1 + sym_choice(3) : 0;       // language of the unit, of the archive, or of both
    if (set & 1) { srcml_unit_set_language(u, "Java"); want = "Java"; } if (set & 2) { srcml_archive_set_language(a, "C#"); if (!(set & 1)) want = "C#"; }
    int rc = srcml_unit_parse_filename(u, f.c_str());
    CHECK(want ? rc == SRCML_STATUS_OK : rc == SRCML_STATUS_UNSET_LANGUAGE, "without a language the parse is refused, with one it is not");
    if (rc == 0) { CHECK(srcml_archive_write_unit(a, u) == 0, "written"); }
    srcml_unit_free(u); srcml_archive_close(a); srcml_archive_free(a); S d = o.str(); srcml_memory_free(o.p);
    if (want) { sym_out(d.data(), d.size()); sym_note("%s", d.c_str()); Xml x; wf(d, x); const S *l = x.el[1].get("language"); CHECK(l && eq(*l, S(want)), "the document records the language that was used"); }
    sym_reach("language checked");
}
}
#elif PROP == 17
// ---- clones
static const char *CN[] = {"archive", "archive changed", "unit", "unit changed", "archive in use"};
struct ArchState { std::vector<S> v; bool operator==(const ArchState &o) const { if (v.size() != o.v.size()) return false; for (size_t i = 0; i < v.size(); ++i) if (!eq(v[i], o.v[i])) return false; return true; } };
static S num(unsigned long long n) { return S((char *)&n, 8); }
static ArchState get(srcml_archive *a) { ArchState s; 
    s.v.push_back(nz(srcml_archive_get_xml_encoding(a))); s.v.push_back(nz(srcml_archive_get_src_encoding(a))); s.v.push_back(nz(srcml_archive_get_revision(a))); s.v.push_back(nz(srcml_archive_get_language(a))); s.v.push_back(nz(srcml_archive_get_url(a))); s.v.push_back(nz(srcml_archive_get_version(a)));
    s.v.push_back(num(srcml_archive_get_options(a))); s.v.push_back(num(srcml_archive_get_tabstop(a))); s.v.push_back(srcml_archive_has_hash(a) ? "h" : ""); s.v.push_back(srcml_archive_is_solitary_unit(a) ? "s" : ""); s.v.push_back(num(srcml_archive_get_srcdiff_revision(a)));
    s.v.push_back(nz(srcml_archive_get_processing_instruction_target(a))); s.v.push_back(nz(srcml_archive_get_processing_instruction_data(a)));
    for (size_t i = 0; i < srcml_archive_get_namespace_size(a); ++i) { s.v.push_back(nz(srcml_archive_get_namespace_prefix(a, i))); s.v.push_back(nz(srcml_archive_get_namespace_uri(a, i))); }
    s.v.push_back(nz(srcml_archive_check_extension(a, "a.zz"))); s.v.push_back(nz(srcml_archive_check_extension(a, "a.c"))); return s; }
static ArchState get(srcml_unit *u) { ArchState s; s.v.push_back(nz(srcml_unit_get_src_encoding(u))); s.v.push_back(nz(srcml_unit_get_revision(u))); s.v.push_back(nz(srcml_unit_get_language(u))); s.v.push_back(nz(srcml_unit_get_filename(u))); s.v.push_back(nz(srcml_unit_get_version(u))); s.v.push_back(nz(srcml_unit_get_timestamp(u))); s.v.push_back(nz(srcml_unit_get_hash(u))); s.v.push_back(num(srcml_unit_get_eol(u))); return s; }
static void setA(srcml_archive *a, int k, const char *v, size_t t) { switch (k) {
    case 0: srcml_archive_set_xml_encoding(a, v); break; case 1: srcml_archive_set_src_encoding(a, v); break; case 2: srcml_archive_set_language(a, v); break; case 3: srcml_archive_set_url(a, v); break; case 4: srcml_archive_set_version(a, v); break;
    case 5: srcml_archive_set_options(a, t & 63); break; case 6: srcml_archive_set_tabstop(a, t); break; case 7: srcml_archive_disable_hash(a); break; case 8: srcml_archive_enable_solitary_unit(a); break; case 9: srcml_archive_register_namespace(a, v, "http://n"); break;
    case 10: srcml_archive_register_file_extension(a, "zz", "Java"); break; case 11: srcml_archive_register_file_extension(a, "c", "C#"); break; case 12: srcml_archive_set_processing_instruction(a, "t", v); break; default: srcml_archive_set_srcdiff_revision(a, t & 1); break; } }
static void setU(srcml_unit *u, int k, const char *v, size_t t) { switch (k) { case 0: srcml_unit_set_src_encoding(u, v); break; case 1: srcml_unit_set_language(u, v); break; case 2: srcml_unit_set_filename(u, v); break; case 3: srcml_unit_set_version(u, v); break; case 4: srcml_unit_set_timestamp(u, v); break; default: srcml_unit_set_eol(u, t & 3); break; } }
// a clone is not opened, whatever the archive was used for, and writes what an archive with the same setup writes
static S useDoc(srcml_archive *w, int use) { Buf o; CHECK(srcml_archive_write_open_memory(w, &o.p, &o.n) == 0, "opens"); int rc = 0;
    if (use == 1) writeUnit(w, "C++", "#if a\nb;\n", &rc); else if (use == 2) rc = srcml_archive_write_string(w, "<unit/>", 7); else if (use == 3) { writeUnit(w, "C", "", &rc); writeUnit(w, "Java", "c;", &rc); }
    CHECK(rc == 0, "written"); srcml_archive_close(w); S d = o.str(); srcml_memory_free(o.p); return d; }
static void inUse() {
    bool sol = sym_choice(2); srcml_archive *a = srcml_archive_create(), *f = srcml_archive_create(); srcml_archive *both[2] = {a, f}; int k = sym_choice(14); for (int i = 0; i < 2; ++i) { if (sol) srcml_archive_enable_solitary_unit(both[i]); if (k != 0 && k != 1) setA(both[i], k, "w", 3); }
    Buf o; int n = sym_choice(7), rc = 0; srcml_unit *u = 0; S in = "<unit xmlns=\"http://www.srcML.org/srcML/src\" revision=\"1.0.0\"><unit revision=\"1.0.0\" language=\"C\" filename=\"g\">q</unit></unit>";
    if (n == 6) srcml_archive_read_open_memory(a, in.data(), in.size()); else if (n > 0) srcml_archive_write_open_memory(a, &o.p, &o.n);
    if (n == 2) srcml_archive_write_string(a, "x", 1); if (n == 3) writeUnit(a, "C++", "z;", &rc); if (n == 4) { u = srcml_unit_create(a); srcml_write_start_unit(u); }
    srcml_archive *b = srcml_archive_clone(a); CHECK(b != 0, "cloned"); bool early = sym_choice(2);
    if (n == 5) srcml_archive_close(a);
    S got, want;
    if (n == 6) { if (early) { srcml_archive_close(a); srcml_archive_free(a); a = 0; } Buf q; CHECK(srcml_archive_write_open_memory(b, &q.p, &q.n) == 0, "the clone opens"); srcml_archive_close(b); S d = q.str(); srcml_memory_free(q.p); if (!srcml_archive_is_solitary_unit(f)) { Xml x; wf(d, x); CHECK(x.el.size() == 1, "the clone is an archive without units"); } sym_note("%s", d.c_str()); }
    else { if (early) { srcml_unit_free(u); u = 0; srcml_archive_close(a); srcml_archive_free(a); a = 0; srcml_memory_free(o.p); o.p = 0; } int use = sym_choice(4); got = useDoc(b, use); want = useDoc(f, use); sym_note("%s\n against %s", got.c_str(), want.c_str()); CHECK(eq(got, want), "the clone of an archive in use writes what an archive with its setup writes"); }
    if (!early) { srcml_unit_free(u); srcml_archive_close(a); srcml_archive_free(a); if (n > 0 && n < 6 && o.p) { outDoc(o.str()); srcml_memory_free(o.p); } }
    srcml_archive_free(b); srcml_archive_free(f); sym_reach("cloned");
}
extern "C" {
const char *sym_config_name(int c) { return c < 5 ? CN[c] : 0; }
void sym_setup(void) {}
void sym_harness(int c) {
    if (c == 4) { inUse(); return; }
    char v[3] = "vx"; sym_make(v, 1); if (c < 2) sym_assume(v[0] == 'a' || v[0] == 'Z' || v[0] == (char)0xc3 || v[0] == 0); else sym_assume(v[0] != 'w'); unsigned char t; sym_make(&t, 1); sym_assume(t == 1 || t == 3 || t == 8);
    srcml_archive *a = srcml_archive_create(); ArchState before, after;
    if (c < 2) {
        int k = sym_choice(14), k2 = TIER > 1 ? sym_choice(14) : (k + 1 + sym_choice(3)) % 14; setA(a, k, v, t); setA(a, k2, "w", t); before = get(a);
        srcml_archive *b = srcml_archive_clone(a); CHECK(b != 0, "cloned"); CHECK(get(b) == before, "a clone has the setup of the archive");
        if (c == 1) {
            int m = sym_choice(14), who = sym_choice(3);
            if (who == 0) { setA(b, m, "other", t + 1); CHECK(get(a) == before, "changing the clone leaves the archive as it was"); }
            else if (who == 1) { setA(a, m, "other", t + 1); CHECK(get(b) == before, "changing the archive leaves the clone as it was"); }
            else { srcml_archive_free(a); a = 0; CHECK(get(b) == before, "the clone outlives the archive"); }
        } else {
            // both can be used, and write the same
            S d[2]; if (k >= 2 && k2 >= 2 && k != 9 && k != 12 && k != 13 && k2 != 9 && k2 != 13) for (int i = 0; i < 2; ++i) { srcml_archive *w = i ? b : a; Buf o; srcml_archive_set_language(w, "C++"); CHECK(srcml_archive_write_open_memory(w, &o.p, &o.n) == 0, "opens"); int rc; writeUnit(w, 0, "#if a\nb;\n", &rc); CHECK(rc == 0, "parsed and written"); srcml_archive_close(w); d[i] = o.str(); srcml_memory_free(o.p); }
            CHECK(eq(d[0], d[1]), "the archive and its clone write the same document");
        }
        srcml_archive_free(b); if (a) srcml_archive_free(a);
    } else {
        srcml_unit *u = srcml_unit_create(a); int k = sym_choice(6), k2 = sym_choice(6); setU(u, k, v, t); setU(u, k2, "w", t); srcml_unit_set_language(u, "C"); if (k != 0 && k2 != 0) { int p = sym_choice(2); if (p) CHECK(srcml_unit_parse_memory(u, "a;", 2) == 0, "parses"); } before = get(u);
        srcml_unit *w = srcml_unit_clone(u); CHECK(w != 0, "cloned"); CHECK(get(w) == before, "a clone has the setup of the unit");
        int m = sym_choice(6), who = sym_choice(3);
        if (who == 0) { setU(w, m, "other", t + 1); CHECK(get(u) == before, "changing the clone leaves the unit as it was"); }
        else if (who == 1) { setU(u, m, "other", t + 1); CHECK(get(w) == before, "changing the unit leaves the clone as it was"); }
        else { srcml_unit_free(u); u = 0; CHECK(get(w) == before, "the clone outlives the unit"); if (c == 3 && k != 0 && k2 != 0) { srcml_unit_set_language(w, "C"); CHECK(srcml_unit_parse_memory(w, "b;\n", 3) == 0, "the clone can be parsed into"); } }
        srcml_unit_free(w); srcml_unit_free(u); srcml_archive_free(a);
    }
    sym_reach("cloned");
}
}
#elif PROP == 19
// ---- writing a unit element by element
static const char *CN[] = {"elements", "text", "attributes", "copies", "quote"};
extern "C" {
const char *sym_config_name(int c) { return c < 5 ? CN[c] : 0; }
void sym_setup(void) {}
void sym_harness(int c) {
    srcml_archive *a = srcml_archive_create(); srcml_archive_disable_hash(a); Buf o; CHECK(srcml_archive_write_open_memory(a, &o.p, &o.n) == 0, "opens");
    srcml_unit *u = srcml_unit_create(a); srcml_unit_set_language(u, "C++");
    CHECK(srcml_write_start_element(u, 0, "a", 0) == SRCML_STATUS_INVALID_INPUT, "nothing can be written before the unit is started");
    CHECK(srcml_write_start_unit(u) == 0, "the unit is started");
    // the model: an XML fragment in canonical form
    S want, text; std::vector<S> open; bool tag = false; bool had[8] = {};
    char b[2]; sym_make(b, 2); for (int i = 0; i < 2; ++i) sym_assume((b[i] >= 32 && b[i] < 127) || b[i] == '\n' || b[i] == '\t');
    S sym(b, 2); bool used = false;
    int n = c == 0 ? (TIER > 1 ? 6 : 5) : c == 3 ? 2 : 4, units = c == 3 ? 2 : 1;
    std::vector<S> wants, texts;
    for (int un = 0; un < units; ++un) {
    if (un) { want.clear(); text.clear(); open.clear(); tag = false; used = false; CHECK(srcml_write_start_unit(u) == 0, "the unit is started"); }
    for (int i = 0; i < n; ++i) {
        int op = c == 0 ? sym_choice(5) : c == 1 ? sym_choice(4) : c == 2 ? 4 + sym_choice(4) : sym_choice(3); int rc; 
        if (c == 1) op = op == 0 ? 0 : op == 1 ? 3 : op == 2 ? 4 : 5; else if (c == 2) op = op == 4 ? 0 : op == 5 ? 6 : op == 6 ? 7 : 4; else if (c == 3) op = op == 0 ? 0 : op == 1 ? 4 : 5; else if (c == 4) op = i == 0 ? 0 : i == 1 ? 8 : 3;
        switch (op) {
        case 0: rc = srcml_write_start_element(u, 0, "a", 0); CHECK(rc == 0, "an element is started"); if (tag) want += ">"; want += "<a"; open.push_back("a"); tag = true; for (int k = 0; k < 8; ++k) had[k] = false; break;
        case 1: rc = srcml_write_start_element(u, "p", "b", "http://p"); CHECK(rc == 0, "an element is started"); if (tag) want += ">"; want += "<p:b xmlns:p=http://p"; open.push_back("p:b"); tag = true; for (int k = 0; k < 8; ++k) had[k] = false; break;
        case 2: rc = srcml_write_start_element(u, 0, "unit", 0); CHECK(rc == SRCML_STATUS_INVALID_INPUT, "a unit cannot be written as an element"); break;
        case 3: case 4: { if (op == 4 && c == 0 ? false : op == 3 && c == 1 ? false : false) break;
            if (op == 3) { rc = srcml_write_string(u, "x<&>]]>"); CHECK(rc == 0, "text is written"); if (tag) { want += ">"; tag = false; } want += "x<&>]]>"; text += "x<&>]]>"; break; }
            rc = srcml_write_end_element(u); CHECK(rc == (open.empty() ? SRCML_STATUS_INVALID_INPUT : SRCML_STATUS_OK), "an element is ended only when one is open");
            if (!open.empty()) { if (tag) want += ">"; want += "</" + open.back() + ">"; open.pop_back(); tag = false; } break; }
        case 5: { S s = used ? S("\"y\"") : sym; used = true; rc = srcml_write_string(u, s.c_str()); CHECK(rc == 0, "text is written"); if (tag) { want += ">"; tag = false; } want += s; text += s; break; }
        case 6: { if (had[0]) sym_assume(0); had[0] = true; S s = used ? S("<y>") : sym; used = true; rc = srcml_write_attribute(u, 0, "k", 0, s.c_str()); CHECK(rc == (tag ? SRCML_STATUS_OK : SRCML_STATUS_INVALID_INPUT), "attributes are accepted only in the start tag of an element"); if (tag) { want += " k="; for (size_t q = 0; q < s.size(); ++q) want += s[q]; } break; }
        case 7: { int w = had[1] ? 1 : 0; if (had[2]) sym_assume(0); had[1 + w] = true; rc = w ? srcml_write_namespace(u, "q", "http://q") : srcml_write_attribute(u, "r", "l", "http://r", "v"); CHECK(rc == (tag ? SRCML_STATUS_OK : SRCML_STATUS_INVALID_INPUT), "attributes are accepted only in the start tag of an element"); if (tag) want += w ? " xmlns:q=http://q" : " r:l=v"; if (tag && !w) want += "\1"; break; }
        case 8: rc = srcml_write_string(u, "\"c\""); CHECK(rc == 0, "text is written"); if (tag) { want += ">"; tag = false; } want += "\"c\""; text += "\"c\""; break;
        }
    }
    while (!open.empty()) { if (tag) want += ">"; want += "</" + open.back() + ">"; open.pop_back(); tag = false; }
    CHECK(srcml_write_end_unit(u) == 0, "the unit is ended"); CHECK(srcml_write_string(u, "z") == SRCML_STATUS_INVALID_INPUT, "nothing can be written after the unit is ended");
    CHECK(srcml_archive_write_unit(a, u) == 0, "written"); wants.push_back(want); texts.push_back(text);
    }
    S inner = nz(srcml_unit_get_srcml_inner(u));
    srcml_unit_free(u); srcml_archive_close(a); srcml_archive_free(a); S d = o.str(); srcml_memory_free(o.p); sym_out(d.data(), d.size()); sym_note("%s\nwant %s", d.c_str(), want.c_str());
    Xml x; wf(d, x); int nu = 0;
    for (int e = 0; e < (int)x.el.size(); ++e) if (x.el[e].name == "unit" && x.el[e].depth == 1) {
        // canonical form of what was written
        struct F { static void go(const Xml &x, int e, S &o, size_t &tp) { for (int i = e + 1; i < x.el[e].end; i = x.el[i].end) { o += x.text.substr(tp, x.el[i].b - tp); tp = x.el[i].b; o += "<" + x.el[i].name; S ns; for (size_t k = 0; k < x.el[i].att.size(); ++k) { const Att &t = x.el[i].att[k]; if (t.name == "xmlns:r") continue; if (t.name == "xmlns:p" || t.name == "xmlns:q") o += " " + t.name + "=" + t.value; else { o += " " + t.name + "=" + t.value; if (t.name == "r:l" && x.el[i].get("xmlns:r") && *x.el[i].get("xmlns:r") == "http://r") o += "\1"; } } o += ">"; go(x, i, o, tp); o += x.text.substr(tp, x.el[i].e - tp); tp = x.el[i].e; o += "</" + x.el[i].name + ">"; } } };
        S got; size_t tp = x.el[e].b; F::go(x, e, got, tp); got += x.text.substr(tp, x.el[e].e - tp);
        S w = wants[nu]; // white space in attribute values is normalised by the reader unless it is written as a reference
        sym_note("got %s", got.c_str());
        CHECK(eq(got, w), "the document has exactly what was written");
        CHECK(eq(x.txt(e), texts[nu]), "the text is what was written"); ++nu;
    }
    CHECK(nu == units, "there is one unit for each that was written");
    int rc2; S back = unparseDoc(d, "UTF-8", &rc2); CHECK(rc2 == 0 && eq(back, texts[0]), "the source is the text that was written");
    sym_reach("written");
}
}
#endif
