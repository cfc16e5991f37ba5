// The command-line client from its inputs to the document it writes (C25).
#include "h.hpp"
#include "minilibarchive.hpp"
#include <create_srcml.hpp>
#include <srcml_options.hpp>
#include <ParserTest.hpp>
#include <transform_srcml.hpp>
#include <input_curl.hpp>
#include <input_archive.hpp>
#include <SRCMLStatus.hpp>
#ifndef TIER
#define TIER 1
#endif
#ifndef DEL
#define DEL 2
#endif
#ifndef PRE
#define PRE 1
#endif
static bool eq(const S &a, const S &b) { return a.size() == b.size() && !memcmp(a.data(), b.data(), a.size()); }
// parts of the client that are not part of this: a test mode, transformations, the network
void ParserTest::entry(const ParseRequest *, srcml_archive *, srcml_unit *) {}
void ParserTest::report(srcml_archive *) {}
int apply_xslt(srcml_archive *, const S &) { return 1; }
int apply_xpath(srcml_archive *, srcml_archive *, const S &, const std::pair<boost::optional<element>, boost::optional<attribute> > &, const std::map<S, S> &) { return 1; }
int apply_relaxng(srcml_archive *, const S &) { return 1; }
bool curl_supported(const S &) { return false; }
int input_curl(srcml_input_src &) { return 0; }
bool getCurlErrors() { return false; }
int input_archive(const srcml_input_src &) { return -1; }
static S dirs = "vfs_d";
extern "C" int stat(const char *p, struct stat *s) { memset(s, 0, sizeof *s); s->st_mode = dirs == p ? S_IFDIR : S_IFREG; return 0; }

struct Unit { S name, lang, body, version, xml; bool has, hasv; Unit(const S &n, const S &l, const S &b) : name(n), lang(l), body(b), has(true), hasv(false) {} };
struct Opt { bool solitary, hash; size_t opts; int tab; S url, lang, xenc, senc, version, pre, uri; Opt() : solitary(false), hash(true), opts(0), tab(8) {} };
// what the library makes of the same units
static S expected(const std::vector<Unit> &us, const Opt &o) {
    Buf b; srcml_archive *a = srcml_archive_create();
    if (o.solitary) srcml_archive_enable_solitary_unit(a); else srcml_archive_disable_solitary_unit(a);
    if (o.hash) srcml_archive_enable_hash(a); else srcml_archive_disable_hash(a);
    if (o.opts) srcml_archive_enable_option(a, o.opts);
    if (!o.xenc.empty()) srcml_archive_set_xml_encoding(a, o.xenc.c_str());
    if (!o.senc.empty()) srcml_archive_set_src_encoding(a, o.senc.c_str());
    if (!o.url.empty()) srcml_archive_set_url(a, o.url.c_str());
    if (!o.version.empty()) srcml_archive_set_version(a, o.version.c_str());
    srcml_archive_set_language(a, o.lang.empty() ? SRCML_LANGUAGE_NONE : o.lang.c_str());
    if (!o.uri.empty()) srcml_archive_register_namespace(a, o.pre.c_str(), o.uri.c_str());
    srcml_archive_set_tabstop(a, o.tab);
    srcml_archive_write_open_memory(a, &b.p, &b.n);
    for (size_t i = 0; i < us.size(); ++i) {
        srcml_unit *u = srcml_unit_create(a);
        srcml_unit_set_language(u, us[i].lang.c_str());
        if (us[i].has) srcml_unit_set_filename(u, us[i].name.c_str());
        if (us[i].hasv) srcml_unit_set_version(u, us[i].version.c_str());
        int r = srcml_unit_parse_memory(u, us[i].body.data(), us[i].body.size());
        if (!r) srcml_archive_write_unit(a, u);
        srcml_unit_free(u);
    }
    srcml_archive_close(a); srcml_archive_free(a);
    S r = b.str(); srcml_memory_free(b.p);
    return r;
}
static S slurp(const char *n) { static char b[1 << 16]; long k = sym_slurp(n, b, sizeof b); return k < 0 ? S("\1no file") : S(b, k); }
static srcml_request_t request() { srcml_request_t r; r.markup_options = 0; r.tabs = 8; r.max_threads = 2; return r; }
static void file(const S &n, const S &t0) { S &t = *new S(t0); sym_file(n.c_str(), t.data(), t.size()); madd(n, ARCHIVE_FORMAT_RAW); if (t.size()) mentry(MA.back(), "data", t); else MA.back().format = ARCHIVE_FORMAT_EMPTY; }
static void check(const srcml_request_t &r, const std::vector<S> &in, const std::vector<Unit> &us, const Opt &o, int mode, bool failed, bool list = false) {
    srcml_input_t v; for (size_t i = 0; i < in.size(); ++i) v.push_back(srcml_input_src(in[i]));
    coro_on(1, 0, 0);
    S want = us.empty() && !list ? S() : expected(us, o);      // nothing is written when no input could be used
    srcml_output_dest d("vfs_out");
    int open = sym_openfds(), used = MOPEN;
    if (mode == 2) coro_on(2, PRE, TIER > 1);
    create_srcml(r, v, d);
    int left = coro_alive();
    coro_on(1, 0, 0);
    S got = slurp("vfs_out");
    if (getenv("DBG")) fprintf(stderr, "%zu %zu\n%s---\n%s\n", got.size(), want.size(), got.c_str(), want.c_str());
    sym_note("---got\n%s\n---want\n%s", got.c_str(), want.c_str());
    CHECK(left == 0, "no thread is left");
    // after an input that could not be used the archive is ended without the usual empty line
    size_t e = want.size(), g = got.size();
    if (failed && !(got.size() == want.size()) && e > 10 && g > 8) { e -= 10; g -= 8; CHECK(eq(want.substr(e), "\n\n</unit>\n") || eq(want.substr(e + 1), "\n</unit>\n"), "the end of an archive"); CHECK(eq(got.substr(g), "</unit>\n") , "an archive is ended also after an input that could not be used"); }
    CHECK(eq(got.substr(0, g), want.substr(0, e)), "the document is what the library makes of the inputs in their order");
    CHECK(sym_openfds() == open && MOPEN == used, "what was opened is closed");
    outDoc(got);
}
static bool gone;       // a unit that is not there
// the source text of --text: the escapes of echo -e; a zero byte begins another unit
static std::vector<S> decode(const S &t) {
    std::vector<S> r(1); size_t i = 0;
    while (i < t.size()) {
        if (!(t[i] == '\\')) { r.back() += t[i++]; continue; }
        char k = i + 1 < t.size() ? t[i + 1] : 0; int v = -1;
        if (!k) { r.back() += '\\'; break; }
        i += 2;
        if (k == 'n') r.back() += '\n'; else if (k == 't') r.back() += '\t'; else if (k == 'f') r.back() += '\f'; else if (k == 'a') r.back() += '\a'; else if (k == 'b') r.back() += '\b'; else if (k == 'e') r.back() += '\x1b'; else if (k == 'r') r.back() += '\r'; else if (k == 'v') r.back() += '\v'; else if (k == '\\') r.back() += '\\';
        else if (k == 'x') {
            int d = 0; v = 0;
            for (; d < 2 && i < t.size(); ++d, ++i) { char c = t[i]; int h; if (c >= '0' && c <= '9') h = c - '0'; else if (c >= 'a' && c <= 'f') h = c - 'a' + 10; else if (c >= 'A' && c <= 'F') h = c - 'A' + 10; else break; v = v * 16 + h; }
            if (!d) { r.back() += "\\x"; v = -1; }
        } else if (k >= '0' && k <= '7') {
            v = k - '0'; for (int d = k == '0' ? 0 : 1; d < 3 && i < t.size() && t[i] >= '0' && t[i] <= '7'; ++d, ++i) v = v * 8 + (t[i] - '0');
        } else { r.back() += '\\'; r.back() += k; }
        sym_assume(v < 256);
        if (v == 0) r.push_back(S()); else if (v > 0) r.back() += (char)v;
    }
    return r;
}
static S nodots(S s) { while (s.size() > 2 && s[0] == '.' && s[1] == '/') s.erase(0, 2); return s; }
static bool sp(char c) { return c == ' ' || c == '\n' || c == '\r' || c == '\t' || c == '\f' || c == '\v'; }
#define NSX "xmlns=\"http://www.srcML.org/srcML/src\""
static const char *DOC[] = {
    "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n<unit " NSX " revision=\"1.0.0\" language=\"C\" filename=\"s.c\"><expr_stmt><expr><name>x</name></expr>;</expr_stmt>\n</unit>\n",
    "<unit " NSX " xmlns:p=\"http://p\" revision=\"1.0.0\" url=\"u\"><unit revision=\"1.0.0\" language=\"C++\" filename=\"1\"><p:a/>b</unit><unit revision=\"1.0.0\" language=\"Java\" filename=\"2\" hash=\"0\">c\n</unit></unit>",
    "<unit " NSX " xmlns:q=\"http://q\" revision=\"1.0.0\"><unit revision=\"1.0.0\" language=\"C#\" filename=\"3\"><q:a/></unit></unit>"};
static const char *DN[] = {"vfs_0.xml", "vfs_1.xml", "vfs_2.srcml"};
struct In { int d, unit; };
static void each(const std::vector<In> &v, srcml_archive *to, const S &lang, void (*f)(srcml_archive *, srcml_unit *, void *), void *p) {
    for (size_t i = 0; i < v.size(); ++i) {
        srcml_archive *a = srcml_archive_create(); srcml_archive_read_open_filename(a, DN[v[i].d]);
        for (int k = 1; k < v[i].unit; ++k) srcml_archive_skip_unit(a);
        while (srcml_unit *u = srcml_archive_read_unit(a)) { if (!lang.empty()) srcml_unit_set_language(u, lang.c_str()); f(to, u, p); srcml_unit_free(u); if (v[i].unit) break; }
        srcml_archive_close(a); srcml_archive_free(a);
    }
}
static void put(srcml_archive *a, srcml_unit *u, void *) { srcml_archive_write_unit(a, u); }
static void inner(srcml_archive *, srcml_unit *u, void *p) { S s = srcml_unit_get_srcml_inner(u); if (s.size() && !(s[s.size() - 1] == '\n')) s += "\n"; *(S *)p += s; }
static void outer(srcml_archive *, srcml_unit *u, void *p) { S s = srcml_unit_get_srcml_outer(u); if (s.size() && !(s[s.size() - 1] == '\n')) s += "\n"; *(S *)p += s; }
static void documents(int c) {
    static S text[3]; static const int NU[] = {1, 2, 1}; static const char *NSP[][2] = {{0, 0}, {"p", "http://p"}, {"q", "http://q"}};
    srcml_request_t r = request(); std::vector<In> v; srcml_input_t in; S lang;
    for (int i = 0; i < 3; ++i) { text[i] = DOC[i]; if (i == 1 && c == 8) text[i].insert(text[i].find("b<"), 1, (char)sym_byte()); sym_file(DN[i], text[i].data(), text[i].size()); }
    if (c == 8) { unsigned char x = text[1][text[1].find("b<") - 1]; sym_assume((x >= 32 && x < 127 && !(x == '<') && !(x == '&')) || x == '\n'); }
    int n = c == 9 ? 2 : 1 + sym_choice(2); bool arch = n > 1;
    for (int i = 0; i < n; ++i) { In x; x.d = c == 9 ? 1 + i : sym_choice(3); x.unit = c == 9 ? 0 : sym_choice(NU[x.d] + 1); v.push_back(x); in.push_back(srcml_input_src(DN[x.d])); in.back().unit = x.unit; if (x.d && !x.unit) arch = true; }
    if (c == 8 && sym_choice(2)) { lang = "C"; r.att_language = lang; }
    coro_on(1, 0, 0);
    S want; int form = 0;
    if (c == 10) { form = sym_choice(2); each(v, 0, lang, form ? outer : inner, &want); SRCMLOptions::set(SRCML_COMMAND_XML | (form ? SRCML_COMMAND_XML_FRAGMENT : SRCML_COMMAND_XML_RAW)); }
    else {
        Buf b; srcml_archive *a = srcml_archive_create();
        if (arch) srcml_archive_disable_solitary_unit(a); else srcml_archive_enable_solitary_unit(a);
        if (n > 1) srcml_archive_enable_hash(a); else srcml_archive_disable_hash(a);
        srcml_archive_set_language(a, lang.empty() ? SRCML_LANGUAGE_NONE : lang.c_str());
        // the declarations of a later document are on its units
        for (int i = 0; i < 1; ++i) if (v[i].d) srcml_archive_register_namespace(a, NSP[v[i].d][0], NSP[v[i].d][1]);
        srcml_archive_write_open_memory(a, &b.p, &b.n);
        each(v, a, lang, put, 0);
        srcml_archive_close(a); srcml_archive_free(a); want = b.str(); srcml_memory_free(b.p);
        SRCMLOptions::set(SRCML_COMMAND_XML);
    }
    int open = sym_openfds();
    int at[4], who[4], left = 0;
    for (int k = 0; k <= (c == 9 ? DEL : 0); ++k) {       // with k switches elsewhere than in a run to completion
        if (c == 9) coro_delay(k, at, who);
        create_srcml(r, in, srcml_output_dest("vfs_out"));
        left += coro_alive();
        if (c == 9 && k < DEL) { int m = coro_points(), from = k ? at[k - 1] + 1 : 0; at[k] = from + sym_choice(m - from > 0 ? m - from : 1); who[k] = 1 + sym_choice(3); }
    }
    coro_on(1, 0, 0);
    S got = slurp("vfs_out");
    sym_note("---got\n%s\n---want\n%s", got.c_str(), want.c_str());
    CHECK(left == 0, "no thread is left");
    CHECK(eq(got, want), "the document is what the library makes of the units in their order");
    CHECK(sym_openfds() == open, "what was opened is closed");
    outDoc(got);
    sym_reach("written");
}
static void separate() {
    srcml_request_t r = request(); S body = "a"; body += (char)sym_byte(); file("vfs_a.c", body); file("vfs_b.cpp", "b"); file("vfs_t.txt", "");
    static const char *N[] = {"vfs_a.c", "vfs_b.cpp", "vfs_t.txt"}; static const char *LG[] = {"C", "C++", 0};
    srcml_input_t in; int n = 1 + sym_choice(2), d[2]; for (int i = 0; i < n; ++i) { d[i] = sym_choice(3); in.push_back(srcml_input_src(N[d[i]])); }
    r.output_filename = S("vfs_o"); SRCMLOptions::set(SRCML_COMMAND_NOARCHIVE | SRCML_COMMAND_TO_DIRECTORY);
    create_srcml(r, in, r.output_filename);
    CHECK(coro_alive() == 0, "no thread is left");
    for (int i = 0; i < 3; ++i) {
        bool is = false; for (int k = 0; k < n; ++k) if (d[k] == i && i < 2) is = true;
        S got = slurp((S("vfs_o/") + N[i] + ".xml").c_str()), want = "\1no file";
        if (is) { Opt o; o.solitary = true; o.hash = n > 1; std::vector<Unit> u(1, Unit(N[i], LG[i], i ? S("b") : body)); want = expected(u, o); }
        sym_note("---got\n%s\n---want\n%s", got.c_str(), want.c_str());
        CHECK(eq(got, want), "each unit has a file of its own"); outDoc(got);
    }
    CHECK(sym_openfds() == 0 && MOPEN == 0, "what was opened is closed");
    sym_reach("written");
}
extern "C" {
static const char *CN[] = {"files", "files under all schedules", "text", "options", "list of files", "archives", "directories", "standard input", "documents", "documents under all schedules", "parts", "a file for each unit"};
const char *sym_config_name(int c) { return c < 12 ? CN[c] : 0; }
void sym_setup(void) { std::cerr.setstate(std::ios::failbit); }
void sym_harness(int c) {
    if (c == 11) { separate(); return; } else if (c > 7) { documents(c); return; }
    srcml_request_t r = request(); std::vector<S> in; std::vector<Unit> us; Opt o; bool failed = false, list = false;
    if (c <= 1) {
        S a = "a;\n", b = "b"; unsigned char x = c ? ';' : sym_byte(); a += (char)x;
        file("vfs_a.c", a); file("vfs_b.cpp", b); file("vfs_t.txt", "t"); file("vfs_e.java", "");
        int n = c ? 2 : 1 + sym_choice(3);
        for (int i = 0; i < n; ++i) {
            int k = c && !i ? sym_choice(2) * 2 : sym_choice(c ? 3 : 5);
            in.push_back(k == 0 ? "vfs_a.c" : k == 1 ? "vfs_b.cpp" : k == 2 ? "vfs_t.txt" : k == 3 ? "vfs_e.java" : "vfs_none.c");
            if (k == 0) us.push_back(Unit("vfs_a.c", "C", a)); else if (k == 1) us.push_back(Unit("vfs_b.cpp", "C++", b)); else if (k == 3) us.push_back(Unit("vfs_e.java", "Java", ""));
        }
        if (n == 1) { o.solitary = true; o.hash = false; }
        failed = us.size() < in.size();
    } else if (c == 2) {
        static const char *T[] = {TIER > 1 ? "\\@@@;" : "\\@@;", TIER > 1 ? "a;\\@b\\@" : "a;\\@", "@://b@", TIER > 1 ? "\\0@@@" : "\\0@@", TIER > 1 ? "\\x@@@" : "\\x@@", "@\\", TIER > 1 ? "\\@\\@" : "\\0b\\@", "\\1@0"};
        S t = T[sym_choice(8)]; for (size_t i = 0; i < t.size(); ++i) if (t[i] == '@') { t[i] = (char)sym_byte(); sym_assume(t[i] != 0); if (TIER < 2) sym_assume(t[i] < 0x7f && t[i] >= 32); }
        r.att_language = S("C"); o.lang = "C"; bool named = sym_choice(2); if (named) r.att_filename = S("n.c");
        in.push_back("text://" + t);
        std::vector<S> d = decode(t);
        o.solitary = d.size() == 1; o.hash = false;
        for (size_t i = 0; i < d.size(); ++i) { us.push_back(Unit("n.c", "C", d[i])); us.back().has = named; }
    } else if (c == 3) {
        static const char *IN[] = {"vfs_a.c", "text://a;", "vfs_a.c.gz", "vfs_b.cpp"};
        S body = "\ta;"; file("vfs_a.c", body); file("vfs_b.cpp", "b"); madd("vfs_a.c.gz", ARCHIVE_FORMAT_RAW); mentry(MA.back(), "data", body);
        int k = sym_choice(3), both = sym_choice(2); in.push_back(IN[k]); if (both) in.push_back(IN[3]);
        us.push_back(Unit("vfs_a.c", "C", k == 1 ? S("a;") : body)); us[0].has = k != 1; if (both) us.push_back(Unit("vfs_b.cpp", "C++", "b"));
        bool lang = k == 1;
        o.solitary = !both; o.hash = both;
        int last = -1;
        for (int i = 0; i < (TIER > 1 ? 3 : 2); ++i) {
            int w = sym_choice(14); if (w <= last) { sym_assume(w == 13 && last == 13); continue; } last = w;
            if (w == 0) lang = true;
            else if (w == 1) { if (both) sym_assume(0); r.att_filename = S("q.c"); us[0].name = "q.c"; us[0].has = true; }
            else if (w == 2) { r.att_url = S("u"); o.url = "u"; }
            else if (w == 3) { r.att_version = S("v"); o.version = "v"; for (size_t j = 0; j < us.size(); ++j) { us[j].hasv = true; us[j].version = "v"; } }
            else if (w == 4) { r.att_xml_encoding = S("ISO-8859-1"); o.xenc = "ISO-8859-1"; }
            else if (w == 5) { r.src_encoding = S("ISO-8859-1"); o.senc = "ISO-8859-1"; }
            else if (w == 6) { r.tabs = 4; o.tab = 4; }
            else if (w == 7) { *r.markup_options |= SRCML_OPTION_POSITION; o.opts |= SRCML_OPTION_POSITION; }
            else if (w == 8) { *r.markup_options |= SRCML_ARCHIVE; o.solitary = false; o.hash = true; }
            else if (w == 9) { *r.markup_options |= SRCML_HASH; o.hash = true; }
            else if (w == 10) { *r.markup_options |= SRCML_OPTION_NO_XML_DECL; o.opts |= SRCML_OPTION_NO_XML_DECL; }
            else if (w == 11) { r.xmlns_namespaces["p"] = "http://n"; o.pre = "p"; o.uri = "http://n"; }
            else if (w == 12) { *r.markup_options |= SRCML_OPTION_CPP; o.opts |= SRCML_OPTION_CPP; }
        }
        if (!o.solitary && r.att_filename) sym_assume(0);
        if (lang) { r.att_language = S("C++"); o.lang = "C++"; for (size_t i = 0; i < us.size(); ++i) us[i].lang = "C++"; }
    } else if (c == 4) {
        static const char *L[] = {"vfs_a.c", " vfs_b.cpp\t", "#vfs_b.cpp", "", " \r", "-"};
        file("vfs_a.c", "a;"); file("vfs_b.cpp", "b"); file("vfs_e.java", "");
        S t; int n = sym_choice(TIER > 1 ? 4 : 3); for (int i = 0; i < n; ++i) { t += L[sym_choice(6)]; if (i + 1 < n || sym_choice(2)) t += "\n"; }
        if (sym_choice(2)) { int at = sym_choice((int)t.size() + 1); char b = (char)sym_byte(); sym_assume(!(b == 0) && !(b == '?')); if (TIER < 2) sym_assume((b >= 9 && b <= 13) || b == ' ' || b == '#' || b == '-' || b == 'b' || b == ':'); t.insert(at, 1, b); }
        r.att_language = S("C"); o.lang = "C"; madd("fd 0", ARCHIVE_FORMAT_RAW); mentry(MA.back(), "data", "c");
        madd("l", t.empty() ? ARCHIVE_FORMAT_EMPTY : ARCHIVE_FORMAT_RAW); if (!t.empty()) mentry(MA.back(), "data", t, AE_IFREG, sym_choice(2));
        in.push_back("filelist://l"); list = true;
        for (size_t i = 0; i < t.size();) {
            size_t e = i; while (e < t.size() && !(t[e] == '\n')) ++e;
            size_t b = i, f = e; while (b < f && sp(t[b])) ++b; while (f > b && sp(t[f - 1])) --f;
            S l = t.substr(b, f - b); i = e + 1;
            if (l.empty() || l[0] == '#') continue;
            if (eq(l, "vfs_a.c")) us.push_back(Unit(l, "C", "a;")); else if (eq(l, "vfs_b.cpp")) us.push_back(Unit(l, "C", "b")); else if (eq(l, "-") || eq(l, "stdin://-")) { us.push_back(Unit("", "C", "c")); us.back().has = false; } else failed = true;
        }
    } else if (c == 5) {
        // archives of entries, of which those in a known language are taken
        static const char *N[] = {"x.tar", "./x.zip", "d/x.tar.gz"}; static const char *E[] = {"p/a.c", "b.txt", "p", "./d.java", "e"};
        S body; body += (char)sym_byte(); body += "bcdefg";
        int both = sym_choice(2); S n = N[sym_choice(3)]; MFile &f = madd(n, ARCHIVE_FORMAT_TAR); MBLOCK = TIER > 1 ? 1 + sym_choice(3) * 3 : 3; int k = sym_choice(TIER > 1 ? 4 : 3);
        bool lang = sym_choice(2); if (lang) { r.att_language = S("C++"); o.lang = "C++"; }
        for (int i = 0; i < k; ++i) { int w = sym_choice(5); mentry(f, E[w], w == 4 ? S() : body, w == 2 ? AE_IFDIR : AE_IFREG, TIER > 1 ? sym_choice(2) : i); if (w == 0) us.push_back(Unit(E[w], lang ? "C++" : "C", body)); if (w == 3) us.push_back(Unit("d.java", lang ? "C++" : "Java", body)); }
        in.push_back(n);
        if (both) { file("vfs_b.cpp", "b"); in.push_back("vfs_b.cpp"); us.push_back(Unit("vfs_b.cpp", "C++", "b")); }
        else { size_t q = 0; while (n[q] == '.' || n[q] == '/') ++q; o.url = n.substr(q); }
        list = true;
    } else if (c == 6) {
        // a tree is walked in the order of the names; what is hidden, an archive or in no known language is left out
        static const char *N[] = {"vfs_d", "..", "vfs_d/"}; static const char *E[] = {"/a.c", "/s", "/s/b.java", "/.h", "/.h/c.c", "/.d.c", "/x.tar", "/y.txt", "/s/a.cpp", "/0.c"};
        S n = N[sym_choice(3)]; dirs = n; if (n.size() > 1 && n[n.size() - 1] == '/') n.resize(n.size() - 1);
        MFile &f = madd(dirs, 0); mentry(f, n, "", AE_IFDIR); bool s = false, h = false; S body = "a"; body += (char)sym_byte();
        int all = sym_choice(1 << 6); 
        std::vector<S> names;
        for (int i = 0; i < 10; ++i) { if (!(all >> (i % 6) & 1)) continue; if ((i == 2 || i == 8) && !s) continue; if (i == 4 && !h) continue; if (i == 1) s = true; if (i == 3) h = true; mentry(MA[0], n + E[i], "", i == 1 || i == 3 ? AE_IFDIR : AE_IFREG); if (i == 0 || i == 2 || i == 8 || i == 9) names.push_back(n + E[i]); }
        static const char *X[] = {"/a.c", "/s/b.java", "/s/a.cpp", "/.d.c", "/0.c"};
        for (int i = 0; i < 5; ++i) { madd(n + X[i], ARCHIVE_FORMAT_RAW); mentry(MA.back(), "data", body); }
        std::sort(names.begin(), names.end());
        for (size_t i = 0; i < names.size(); ++i) { const S &q = names[i]; us.push_back(Unit(q, q[q.size() - 1] == 'c' ? "C" : q[q.size() - 1] == 'a' ? "Java" : "C++", body)); }
        in.push_back(dirs); list = true;
    } else {
        S body = "a"; body += (char)sym_byte(); if (sym_choice(2)) body = "";
        madd("fd 0", body.empty() ? ARCHIVE_FORMAT_EMPTY : ARCHIVE_FORMAT_RAW); if (!body.empty()) mentry(MA.back(), "data", body);
        r.att_language = S("Java"); o.lang = "Java"; o.solitary = true; o.hash = false;
        in.push_back("stdin://-"); us.push_back(Unit("-", "Java", body)); us[0].has = false;
        if (sym_choice(2)) { r.att_filename = S("q.c"); us[0].name = "q.c"; us[0].has = true; }
    }
    check(r, in, us, o, c == 1 ? 2 : 1, failed, list);
    sym_reach("written");
}
}
