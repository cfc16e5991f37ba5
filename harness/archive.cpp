// Archives: attributes, order and content of units through writing and reading, views of a unit, cursor operations.
#include "h.hpp"
#ifndef PROP
#define PROP 11
#endif
#ifndef NB
#define NB 2
#endif
#ifndef TIER
#define TIER 1
#endif
// characters that are legal in an XML attribute value, written by the user as a C string
static void attrText(char *b, int n) { sym_make(b, n); for (int i = 0; i < n; ++i) sym_assume((b[i] >= 32 && b[i] < 127) || b[i] == '\n' || b[i] == '\t'); b[n] = 0; }
static S word(const char *pre, const char *b, const char *post) { return S(pre) + b + post; }
static int addUnit(srcml_archive *a, const char *lang, const char *src, size_t n, const char *fn, const char *ver, const char *ts, const char *enc = "UTF-8") {
    srcml_unit *u = srcml_unit_create(a);
    srcml_unit_set_language(u, lang);
    if (enc) srcml_unit_set_src_encoding(u, enc);
    if (fn) srcml_unit_set_filename(u, fn);
    if (ver) srcml_unit_set_version(u, ver);
    if (ts) srcml_unit_set_timestamp(u, ts);
    int rc = srcml_unit_parse_memory(u, src, n);
    if (rc == 0) rc = srcml_archive_write_unit(a, u);
    srcml_unit_free(u);
    return rc;
}
static S unparse(srcml_unit *u, int *rc) { Buf b; *rc = srcml_unit_unparse_memory(u, &b.p, &b.n); S r = *rc == 0 ? b.str() : S(); if (*rc == 0) srcml_memory_free(b.p); return r; }
static bool eq(const S &a, const S &b) { return a.size() == b.size() && !memcmp(a.data(), b.data(), b.size()); }
static bool eq(const char *a, const S &b) { return a && strlen(a) == b.size() && !memcmp(a, b.data(), b.size()); }
static void wf(const S &doc, Xml &x) {
    bool ok = x.parse(doc.data(), doc.size());
    if (!ok) sym_note("not well-formed: %s at %zu\n%s", x.why, x.pos, doc.c_str());
    CHECK(ok, "the document is well-formed XML");
}

#if PROP == 11
// ---- attribute values survive writing and reading
static const char *NAME[] = {"filename", "version", "timestamp", "unit filename C#", "archive url", "archive version", "solitary url", "processing instruction", "solitary filename", "solitary version", "filename long", "other attributes"};
extern "C" {
const char *sym_config_name(int c) { return c < 12 ? NAME[c] : 0; }
void sym_setup(void) {}
static void others();
void sym_harness(int c) {
    if (c == 11) { others(); sym_reach("attribute checked"); return; }
    char b[NB + 1]; attrText(b, NB);
    S v = c == 10 ? S(300, 'p') + b + S(300, 'q') : word("a", b, "z");
    if (c == 10 || c == 3) c = 0;
    bool solitary = c == 6 || c == 8 || c == 9;
    if (c == 7) { sym_assume(b[0] != '?' && b[1] != '?' && b[0] != '\n' && b[0] != '\t' && b[0] != ' '); }
    srcml_archive *a = srcml_archive_create(); Buf o;
    if (solitary) srcml_archive_enable_solitary_unit(a);
    if (c == 4 || c == 6) srcml_archive_set_url(a, v.c_str());
    if (c == 5) srcml_archive_set_version(a, v.c_str());
    if (c == 7) srcml_archive_set_processing_instruction(a, "tgt", v.c_str());
    CHECK(srcml_archive_write_open_memory(a, &o.p, &o.n) == 0, "open");
    srcml_unit *u = srcml_unit_create(a);
    srcml_unit_set_language(u, "C");
    srcml_unit_set_src_encoding(u, "UTF-8");
    if (c == 0 || c == 8) srcml_unit_set_filename(u, v.c_str());
    if (c == 1 || c == 9) srcml_unit_set_version(u, v.c_str());
    if (c == 2) srcml_unit_set_timestamp(u, v.c_str());
    CHECK(srcml_unit_parse_memory(u, "a;\n", 3) == 0, "the unit parses");
    if (c == 3) srcml_unit_set_src_encoding(u, v.c_str());
    if (c == 0) CHECK(eq(srcml_unit_get_filename(u), v), "the getter returns what was set");
    CHECK(srcml_archive_write_unit(a, u) == 0, "the unit is written");
    srcml_unit_free(u);
    srcml_archive_close(a); srcml_archive_free(a);
    S doc = o.str(); srcml_memory_free(o.p);
    outDoc(doc); sym_note("%s", doc.c_str());
    Xml x; wf(doc, x);
    const char *an = c == 0 || c == 8 ? "filename" : c == 1 || c == 9 || c == 5 ? "version" : c == 2 ? "timestamp" : c == 3 ? "src-encoding" : c == 4 || c == 6 ? "url" : 0;
    int el = c == 4 || c == 5 || solitary ? 0 : 1;
    if (an) { const S *s = x.el[el].get(an); CHECK(s && eq(*s, v), "the attribute in the document has the value that was set"); }
    else CHECK(x.pis.size() == 1 && x.pis[0].first == "tgt" && eq(x.pis[0].second, v), "the processing instruction is written");
    srcml_archive *r = srcml_archive_create();
    CHECK(srcml_archive_read_open_memory(r, doc.data(), doc.size()) == 0, "the document opens");
    srcml_unit *w = srcml_archive_read_unit(r);
    CHECK(w != 0, "the unit is read");
    const char *g = c == 0 || c == 8 ? srcml_unit_get_filename(w) : c == 1 || c == 9 ? srcml_unit_get_version(w) : c == 2 ? srcml_unit_get_timestamp(w) : c == 3 ? srcml_unit_get_src_encoding(w) : c == 4 || c == 6 ? srcml_archive_get_url(r) : c == 5 ? srcml_archive_get_version(r) : 0;
    if (an && c != 3) {
        sym_note("read back: %s", g ? g : "(null)");
        CHECK(g && eq(g, v), "the value read back is the value that was set");
    }
    // and through a copy of the unit into another archive
    if (c == 0 || c == 1 || c == 2) {
        Buf o2; srcml_archive *a2 = srcml_archive_create(); srcml_archive_write_open_memory(a2, &o2.p, &o2.n);
        CHECK(srcml_archive_write_unit(a2, w) == 0, "a unit that was read can be written");
        srcml_archive_close(a2); srcml_archive_free(a2);
        S d2 = o2.str(); srcml_memory_free(o2.p); Xml y; wf(d2, y);
        const S *s = y.el[1].get(an); CHECK(s && eq(*s, v), "the attribute survives a copy into another archive");
    }
    srcml_unit_free(w); srcml_archive_close(r); srcml_archive_free(r);
    sym_reach("attribute checked");
}
}
// attributes that srcML does not know are kept, whatever their names and values
static void others() {
    static const char *NM[] = {"x", "y", "z", "filenam", "versions"}; int n = 2 + sym_choice(TIER > 1 ? 3 : 2), nm[4]; S val[4], atts; bool root = sym_choice(2), sol = !root && sym_choice(2);
    for (int i = 0; i < n; ++i) { nm[i] = sym_choice(TIER > 1 ? 5 : 4); for (int k = 0; k < i; ++k) sym_assume(nm[i] != nm[k]); int m = sym_choice(4); val[i] = m == 3 ? S("") : S(1, (char)('x' + m)); atts += S(" ") + NM[nm[i]] + "=\"" + val[i] + "\""; }
    S H = "<unit xmlns=\"http://www.srcML.org/srcML/src\" revision=\"1.0.0\"", doc = sol ? H + " language=\"C\"" + atts + ">q</unit>" : H + (root ? atts : S()) + "><unit revision=\"1.0.0\" language=\"C\"" + (root ? S() : atts) + ">q</unit></unit>";
    srcml_archive *r = srcml_archive_create(); CHECK(srcml_archive_read_open_memory(r, doc.data(), doc.size()) == 0, "the document opens"); srcml_unit *u = srcml_archive_read_unit(r); CHECK(u != 0, "the unit is read");
    Buf o; srcml_archive *a = root ? srcml_archive_clone(r) : srcml_archive_create(); if (!root && sym_choice(2)) srcml_archive_enable_solitary_unit(a); CHECK(srcml_archive_write_open_memory(a, &o.p, &o.n) == 0, "open"); CHECK(srcml_archive_write_unit(a, u) == 0, "the unit is written");
    bool asol = srcml_archive_is_solitary_unit(a); srcml_unit_free(u); srcml_archive_close(a); srcml_archive_free(a); srcml_archive_close(r); srcml_archive_free(r); S d = o.str(); srcml_memory_free(o.p); outDoc(d); sym_note("%s\n gave %s", doc.c_str(), d.c_str());
    Xml x; wf(d, x); int el = root || asol ? 0 : 1; size_t k = 0; for (size_t i = 0; i < x.el[el].att.size(); ++i) { bool mine = false; for (int j = 0; j < 5; ++j) if (x.el[el].att[i].name == NM[j]) mine = true; if (mine) ++k; }
    CHECK((int)k == n, "the document has as many attributes as there were"); for (int i = 0; i < n; ++i) { const S *s = x.el[el].get(NM[nm[i]]); CHECK(s && eq(*s, val[i]), "every attribute is kept with its value"); }
}
#elif PROP == 10
// ---- order and content of units; solitary units
struct Case { const char *name; int units; bool solitary; };
static const Case CASE[] = {{"empty archive", 0, false}, {"one unit", 1, false}, {"two units", 2, false}, {"three units", 3, false}, {"no solitary unit", 0, true}, {"solitary unit", 1, true}};
static const char *SRCS[] = {"a;\n", "if(x)y;", "", "/*c*/\n#define Q 1\n", "f(\"s\");\n\n"};
extern "C" {
const char *sym_config_name(int c) { return c < 6 ? CASE[c].name : 0; }
void sym_setup(void) {}
void sym_harness(int c) {
    const Case &k = CASE[c];
    srcml_archive *a = srcml_archive_create(); Buf o;
    if (k.solitary) srcml_archive_enable_solitary_unit(a);
    srcml_archive_write_open_memory(a, &o.p, &o.n);
    std::vector<S> src, fn;
    static const char *LANG[] = {"C", "C++", "Java"};
    int which = k.units ? sym_choice(k.units) : 0;      // the unit with a symbolic character
    for (int i = 0; i < k.units; ++i) {
        S s = SRCS[sym_choice(5)];
        if (i == which) {
            char b[2]; sym_make(b, 1); sym_assume((b[0] & 0x80) == 0);
            s.insert(s.size() ? 1 : s.size(), b, 1);
        }
        src.push_back(s);
        char f[2]; f[0] = 'A' + i; f[1] = 0; fn.push_back(S("f") + f + ".c");
        CHECK(addUnit(a, LANG[i], s.data(), s.size(), fn[i].c_str(), i == 1 ? "v1" : 0, 0) == 0, "the unit is written");
    }
    srcml_archive_close(a); srcml_archive_free(a);
    S doc = o.str(); srcml_memory_free(o.p);
    outDoc(doc);
    if (k.units || !k.solitary) {
        Xml x; wf(doc, x);
        int units = 0; for (size_t i = 0; i < x.el.size(); ++i) if (Xml::local(x.el[i].name) == "unit") ++units;
        CHECK(units == k.units + (k.solitary ? 0 : 1), "one unit element per unit, and the root of an archive");
        if (!k.solitary) { int at = 0; for (size_t i = 1; i < x.el.size(); ++i) if (x.el[i].depth == 1) { CHECK(Xml::local(x.el[i].name) == "unit", "only units below the root of an archive"); const S *f = x.el[i].get("filename"), *l = x.el[i].get("language"); CHECK(f && *f == fn[at] && l && *l == LANG[at], "units in the order they were written, with their attributes"); ++at; } }
    }
    srcml_archive *r = srcml_archive_create();
    CHECK(srcml_archive_read_open_memory(r, doc.data(), doc.size()) == 0, "the document opens");
    if (k.units) CHECK((srcml_archive_is_solitary_unit(r) != 0) == k.solitary, "the kind of document is detected on reading");
    for (int i = 0; i < k.units; ++i) {
        srcml_unit *u = srcml_archive_read_unit(r);
        CHECK(u != 0, "every unit that was written is read");
        CHECK(eq(srcml_unit_get_filename(u), fn[i]), "units are read in the order they were written");
        CHECK(eq(srcml_unit_get_language(u), S(LANG[i])), "the language of a unit is read back");
        CHECK(nz(srcml_unit_get_version(u)) == (i == 1 ? S("v1") : nz(0)), "an attribute belongs to the unit it was set on");
        int rc; S back = unparse(u, &rc), want = normEol(src[i]);
        CHECK(rc == 0 && eq(back, want), "the source of a unit is read back unchanged");
        srcml_unit_free(u);
    }
    if (k.units) { CHECK(srcml_archive_read_unit(r) == 0, "no further unit"); CHECK(srcml_archive_read_unit(r) == 0, "and none later"); }
    srcml_archive_close(r); srcml_archive_free(r);
    sym_reach("archive checked");
}
}
#elif PROP == 9
// ---- the views of a unit agree with each other and with what is written
static const char *CN[] = {"archive parsed", "solitary parsed", "archive read", "solitary read", "archive read url", "solitary read url", "empty source", "short", "short read"};
static const char *SRCS[] = {"a;\n", "f(x<y&&z);", "\"&\"\n#if A\nb\n#endif\n"};
extern "C" {
const char *sym_config_name(int c) { return c < 9 ? CN[c] : 0; }
void sym_setup(void) {}
void sym_harness(int c) {
    bool solitary = c == 1 || c == 3 || c == 5, url = c == 4 || c == 5, rd = c >= 2 && c != 6 && c != 7;
    if (c >= 7) solitary = sym_choice(2);
    S src = c >= 6 ? S() : S(SRCS[sym_choice(3)]);
    if (c >= 7) { int n = 1 + sym_choice(2); char b[2]; sym_make(b, 2); sym_assume((b[0] & 0x80) == 0); sym_assume(b[1] == '\n' || b[1] == 'a' || b[1] == '"' || b[1] == '<'); src.assign(b, n); }
    int in = c == 6 ? 1 : c >= 7 ? 2 : sym_choice(2);                // the symbolic character is in the source or in the filename
    if (in == 0) { int pos = sym_choice((int)src.size() + 1); char b[1]; sym_make(b, 1); sym_assume((b[0] & 0x80) == 0); src.insert(pos, b, 1); }
    char fb[2] = "x"; if (in == 1) attrText(fb, 1); S fn = S("n") + fb + ".c";
    srcml_archive *a = srcml_archive_create(); Buf o;
    if (solitary) srcml_archive_enable_solitary_unit(a);
    if (url) srcml_archive_set_url(a, "u\"<&>u");
    srcml_archive_write_open_memory(a, &o.p, &o.n);
    srcml_unit *u = srcml_unit_create(a);
    srcml_unit_set_language(u, "C++"); srcml_unit_set_src_encoding(u, "UTF-8"); srcml_unit_set_filename(u, fn.c_str());
    CHECK(srcml_unit_parse_memory(u, src.data(), src.size()) == 0, "the unit parses");
    S full, outer, inner;
    int order = sym_choice(3);
    srcml_archive *r = 0; srcml_unit *w = u; S doc;
    if (rd) {
        CHECK(srcml_archive_write_unit(a, u) == 0, "the unit is written"); srcml_unit_free(u); srcml_archive_close(a); srcml_archive_free(a); a = 0;
        doc = o.str(); srcml_memory_free(o.p);
        r = srcml_archive_create(); CHECK(srcml_archive_read_open_memory(r, doc.data(), doc.size()) == 0, "the document opens");
        w = srcml_archive_read_unit(r);
        CHECK(w != 0, "the unit is read");
    }
    for (int i = 0; i < 3; ++i) {
        int q = (i + order) % 3; const char *p = q == 0 ? srcml_unit_get_srcml(w) : q == 1 ? srcml_unit_get_srcml_outer(w) : srcml_unit_get_srcml_inner(w);
        CHECK(p != 0, "every view of the unit exists");
        (q == 0 ? full : q == 1 ? outer : inner) = p;
    }
    sym_note("full  %s\nouter %s\ninner %s", full.c_str(), outer.c_str(), inner.c_str());
    outDoc(full); outDoc(outer); sym_out(inner.data(), inner.size());
    Xml xf; wf(full, xf);
    CHECK(!xf.el.empty() && Xml::local(xf.el[0].name) == "unit", "the full view is the unit element");
    S want = normEol(src);
    CHECK(eq(xf.txt(0), want), "the text of the full view is the source");
    const S *f = xf.el[0].get("filename"), *l = xf.el[0].get("language");
    CHECK(f && eq(*f, fn) && l && *l == "C++", "the attributes of the full view");
    S content = full.substr(xf.el[0].cb, xf.el[0].ce - xf.el[0].cb);
    CHECK(eq(inner, content), "the inner view is exactly the content of the full view");
    Xml xo; bool ok = xo.parse(outer.data(), outer.size(), true);
    if (!ok) sym_note("outer not well-formed: %s", xo.why);
    CHECK(ok && !xo.el.empty() && Xml::local(xo.el[0].name) == "unit", "the outer view is one unit element");
    S ocontent = outer.substr(xo.el[0].cb, xo.el[0].ce - xo.el[0].cb);
    CHECK(eq(ocontent, content), "the content of the outer view is the content of the full view");
    const S *of = xo.el[0].get("filename"), *ol = xo.el[0].get("language");
    CHECK(of && eq(*of, fn) && ol && *ol == "C++", "the attributes of the outer view");
    CHECK(!xo.el[0].get("xmlns"), "the outer view leaves out the default srcML namespace");
    if (rd) {
        int rc; S back = unparse(w, &rc); CHECK(rc == 0 && eq(back, want), "the source of the unit agrees with its views");
        Xml xd; wf(doc, xd); int e = solitary ? 0 : 1;
        S dc = doc.substr(xd.el[e].cb, xd.el[e].ce - xd.el[e].cb); CHECK(eq(dc, content), "the content of the unit in the document is the content of its views");
    } else {
        CHECK(srcml_archive_write_unit(a, u) == 0, "the unit is written"); srcml_unit_free(u); srcml_archive_close(a); srcml_archive_free(a);
        doc = o.str(); srcml_memory_free(o.p);
        Xml xd; wf(doc, xd); int e = solitary ? 0 : 1;
        S dc = doc.substr(xd.el[e].cb, xd.el[e].ce - xd.el[e].cb); CHECK(eq(dc, content), "the content of the unit in the document is the content of its views");
    }
    sym_reach("views checked");
    if (r) { srcml_unit_free(w); srcml_archive_close(r); srcml_archive_free(r); }
}
}
#elif PROP == 12
// ---- any sequence of cursor operations on an archive
static S makeDoc(int n, bool solitary, char b) {
    srcml_archive *a = srcml_archive_create(); Buf o; if (solitary) srcml_archive_enable_solitary_unit(a);
    srcml_archive_set_url(a, "U");
    srcml_archive_write_open_memory(a, &o.p, &o.n);
    for (int i = 0; i < n; ++i) { char f[] = "f0"; f[1] += i; char s[] = "a0 ;\n"; s[1] += i; if (i == 1) s[2] = b; addUnit(a, i == 1 ? "C" : "C++", s, 5, i == 2 ? 0 : f, i == 0 ? "v0" : 0, i == 1 ? "t1" : 0); }
    srcml_archive_close(a); srcml_archive_free(a); S d = o.str(); srcml_memory_free(o.p); return d;
}
static const char *CN[] = {"three units", "two units", "one unit", "solitary"};
extern "C" {
const char *sym_config_name(int c) { return c < 4 ? CN[c] : 0; }
void sym_setup(void) {}
void sym_harness(int c) {
    int n = c == 0 ? 3 : c == 1 ? 2 : 1; bool sol = c == 3;
    char b = ' '; if (n > 1) { sym_make(&b, 1); sym_assume((b & 0x80) == 0); }
    S doc = makeDoc(n, sol, b);
    srcml_archive *r = srcml_archive_create();
    CHECK(srcml_archive_read_open_memory(r, doc.data(), doc.size()) == 0, "the document opens");
    CHECK(eq(srcml_archive_get_url(r), S("U")), "the attributes of the archive are known after opening");
    int at = 0, steps = sym_choice(n + 2);
    for (int s = 0; s < steps; ++s) {
        int op = sym_choice(4);
        if (op == 0) {
            int rc = srcml_archive_skip_unit(r);
            CHECK((rc != 0) == (at < n), "skipping succeeds exactly while there is a unit"); if (at < n) ++at; sym_out("k", 1); continue;
        }
        srcml_unit *u = srcml_archive_read_unit(r);
        CHECK((u != 0) == (at < n), "reading succeeds exactly while there is a unit");
        if (!u) continue;
        char f[] = "f0"; f[1] += at; char src[] = "a0 ;\n"; src[1] += at; if (at == 1) src[2] = b;
        CHECK(nz(srcml_unit_get_filename(u)) == (at == 2 ? nz(0) : S(f)), "the filename is that of the unit at the cursor");
        CHECK(nz(srcml_unit_get_language(u)) == (at == 1 ? "C" : "C++"), "the language is that of the unit at the cursor");
        CHECK(nz(srcml_unit_get_version(u)) == (at == 0 ? S("v0") : nz(0)), "the version is that of the unit at the cursor");
        CHECK(nz(srcml_unit_get_timestamp(u)) == (at == 1 ? S("t1") : nz(0)), "the timestamp is that of the unit at the cursor");
        if (op != 1) {
            S want = normEol(S(src, 5));
            for (int k = 0; k < 2; ++k) {
                if ((op == 2) == (k == 0)) {
                    const char *p = srcml_unit_get_srcml(u); CHECK(p != 0, "the body is read on demand");
                    Xml x; bool ok = x.parse(p, strlen(p)); CHECK(ok && eq(x.txt(0), want), "the body is that of the unit at the cursor"); outDoc(p);
                    const S *xf = x.el[0].get("filename"); CHECK((xf ? *xf : nz(0)) == (at == 2 ? nz(0) : S(f)), "the unit tag is that of the unit at the cursor");
                } else { int rc; S back = unparse(u, &rc); CHECK(rc == 0 && eq(back, want), "the source is that of the unit at the cursor"); sym_out(back.data(), back.size()); }
            }
            int loc = srcml_unit_get_loc(u); sym_out(&loc, 4);
        }
        srcml_unit_free(u); ++at;
    }
    srcml_archive_close(r); srcml_archive_free(r);
    CHECK(coro_alive() == 0, "closing the archive ends its reader");
    sym_reach("sequence checked");
}
}
#endif
