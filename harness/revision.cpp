// The revisions of a srcDiff document (C16).
#include "h.hpp"
#ifndef TIER
#define TIER 1
#endif
static bool eq(const S &a, const S &b) { return a.size() == b.size() && !memcmp(a.data(), b.data(), a.size()); }
#define SRC "http://www.srcML.org/srcML/src"
#define DIFF "http://www.srcML.org/srcDiff"
static const char *P = "diff";
// content with changes, and that of each revision
struct C { S x, r[2]; void add(const S &t, int m) { x += t; if (m & 1) r[0] += t; if (m & 2) r[1] += t; } void tag(const S &t) { x += t; } };
static S open(const char *n, const char *at = "") { return S("<") + P + (*P ? ":" : "") + n + at + ">"; }
static S shut(const char *n) { return S("</") + P + (*P ? ":" : "") + n + ">"; }
static const char *KIND[] = {"insert", "delete", "common", "ws"};
static const int MODE[] = {2, 1, 3, 3};
static const int NP = 12;
static void piece(C &c, int k, char s, int m) {
    switch (k) {
    case 0: c.add(S(1, s), m); break;
    case 1: c.add(S("<name>") + s + "</name>", m); break;
    case 2: c.add("&lt;", m); break;
    case 3: c.add(S("<!-- ") + s + open("delete") + " -->", m); break;
    case 4: c.add("<![CDATA[" + shut("insert") + open("delete") + "]]>", m); break;
    case 5: c.add(S("<?t ") + shut("insert") + "?>", m); break;
    case 6: c.add(S("<name k='") + s + ">' l=\"/>'\"/>", m); break;
    case 7: c.add("<escape char=\"0x0c\"/>", m); break;
    case 8: c.add("<diffx>;</diffx>", m); break;
    case 9: c.tag(S("<") + P + (*P ? ":" : "") + "ws/>"); break;
    case 10: c.add("\n", m); break;
    default: c.add("<insert>i</insert>", m); }
}
static S text(const S &content) { S d = S("<unit xmlns=\"" SRC "\" xmlns:diff=\"" DIFF "\" xmlns:d=\"" DIFF "\">") + content + "</unit>"; Xml x; if (!x.parse(d.data(), d.size())) return "?"; return x.txt(0); }
static S canon(Xml &x, int e) {
    S o; size_t t = x.el[e].b; o += "<" + x.el[e].name;
    for (auto &a : x.el[e].att) if (a.name.compare(0, 5, "xmlns") != 0) o += " " + a.name + "=" + a.value;
    o += ">";
    for (int k = e + 1; k < x.el[e].end; k = x.el[k].end) { o += x.text.substr(t, x.el[k].b - t); o += canon(x, k); t = x.el[k].e; }
    return o + x.text.substr(t, x.el[e].e - t) + "</>";
}
static void checkUnit(srcml_unit *u, const S &content, const char *at) {
    S inner = srcml_unit_get_srcml_inner(u); sym_note("inner\n%s\nexpected\n%s", inner.c_str(), content.c_str());
    CHECK(eq(inner, content), "the inner srcML is that of the revision");
    S w = S("<unit ") + at + ">" + content + "</unit>"; Xml want; want.parse(w.data(), w.size(), true);
    S a = srcml_unit_get_srcml(u), o = srcml_unit_get_srcml_outer(u); Xml x, y; sym_note("%s\n%s", a.c_str(), o.c_str());
    CHECK(x.parse(a.data(), a.size()), "the srcML of the revision is well-formed"); CHECK(eq(canon(x, 0), canon(want, 0)), "the srcML is that of the revision");
    CHECK(y.parse(o.data(), o.size(), true), "the outer srcML of the revision is well-formed"); CHECK(eq(canon(y, 0), canon(want, 0)), "the outer srcML is that of the revision");
    srcml_unit_set_src_encoding(u, "UTF-8"); Buf b; CHECK(srcml_unit_unparse_memory(u, &b.p, &b.n) == 0, "the source is written"); S s = b.str(); srcml_memory_free(b.p); sym_note("source %s", s.c_str());
    CHECK(eq(s, text(content)), "the source is that of the revision");
}
extern "C" {
static const char *CN[] = {"nested", "sequence", "attributes", "revisions one after the other", "numbers"};
const char *sym_config_name(int c) { return c < 5 ? CN[c] : 0; }
void sym_setup(void) {}
void sym_harness(int c) {
    if (c == 4) { size_t n; sym_make(&n, 8); srcml_archive *a = srcml_archive_create(); CHECK(srcml_archive_get_srcdiff_revision(a) == SRCDIFF_REVISION_INVALID, "no revision is set at first"); int r = srcml_archive_set_srcdiff_revision(a, n); CHECK((r == 0) == (n < 2), "there are two revisions"); CHECK(srcml_archive_get_srcdiff_revision(a) == (n < 2 ? n : SRCDIFF_REVISION_INVALID), "the revision set is the one in effect"); srcml_archive_free(a); sym_reach("revision"); return; }
    char s; sym_make(&s, 1); sym_assume(s >= ' ' && s < 127 && s != '<' && s != '&' && s != '\'' && s != '-');
    int rev = sym_choice(3), how = sym_choice(3); bool solitary = how == 2, own = how == 1; P = (TIER > 1 ? sym_choice(2) : how) ? "d" : "diff";
    C k; const char *at = "language=\"C\"";
    if (c == 0) {
        piece(k, TIER > 1 ? sym_choice(NP) : 0, s, 3); int e = sym_choice(4), f = sym_choice(4), p = sym_choice(NP), q = sym_choice(TIER > 1 ? NP : 4);
        k.tag(open(KIND[e])); piece(k, p, s, MODE[e]); k.tag(open(KIND[f], " type=\">\"")); piece(k, q, s, MODE[f]); k.tag(shut(KIND[f])); piece(k, p, s, MODE[e]); k.tag(shut(KIND[e])); if (sym_choice(2)) piece(k, q, s, 3);
    } else if (c == 1) {
        int n = TIER > 1 ? 4 : 3; for (int i = 0; i < n; ++i) { int e = sym_choice(4); if (e == 3) piece(k, 0, s, 3); else { k.tag(open(KIND[e])); piece(k, i & 1 ? 1 : sym_choice(TIER > 1 ? NP : 3), s, MODE[e]); k.tag(shut(KIND[e])); } }
    } else if (c == 2) { at = sym_choice(2) ? "language=\"C\" filename=\"a|b\" version=\"1|2\" timestamp=\"|t\" hash=\"h|\"" : "language=\"C\" filename=\"ab\" version=\"1\""; k.tag(open("insert")); piece(k, 1, s, 2); k.tag(shut("insert")); piece(k, 0, s, 3); }
    else { piece(k, 0, s, 3); k.tag(open("delete")); piece(k, 1, s, 1); k.tag(shut("delete")); k.tag(open("insert")); piece(k, 10, s, 2); k.tag(shut("insert")); piece(k, 0, s, 3); }
    S ns = " xmlns:" + S(P) + "=\"" DIFF "\"", d;
    if (solitary) d = "<unit xmlns=\"" SRC "\"" + ns + " " + at + ">" + k.x + "</unit>\n";
    else d = "<unit xmlns=\"" SRC "\"" + (own ? S() : ns) + ">\n\n<unit" + (own ? ns : S()) + " " + at + ">" + k.x + "</unit>\n\n<unit" + (own ? ns : S()) + " language=\"C\">" + k.x + "</unit>\n\n</unit>\n";
    sym_note("%s", d.c_str());
    srcml_archive *a = srcml_archive_create(); if (rev < 2) srcml_archive_set_srcdiff_revision(a, rev);
    CHECK(srcml_archive_read_open_memory(a, d.data(), d.size()) == 0, "the document is opened");
    Buf o; srcml_archive *b = srcml_archive_create(); srcml_archive_disable_hash(b); if (solitary) srcml_archive_enable_solitary_unit(b); srcml_archive_write_open_memory(b, &o.p, &o.n);
    for (int i = 0; i < (solitary ? 1 : 2); ++i) {
        srcml_unit *u = srcml_archive_read_unit(a); CHECK(u != 0, "every unit is read");
        checkUnit(u, rev < 2 ? k.r[rev] : k.x, i ? "language=\"C\"" : at);
        if (c == 3) for (int j = 0; j < 2; ++j) { int r = sym_choice(2); srcml_archive_set_srcdiff_revision(a, r); rev = r; checkUnit(u, k.r[r], i ? "language=\"C\"" : at); }
        CHECK(srcml_archive_write_unit(b, u) == 0, "a unit that was read is written"); srcml_unit_free(u);
        if (c == 3) break;
    }
    srcml_archive_close(b); srcml_archive_free(b); S w = o.str(); srcml_memory_free(o.p); srcml_archive_close(a); srcml_archive_free(a);
    Xml x; bool ok = x.parse(w.data(), w.size()); sym_note("copy %s\n%s", w.c_str(), x.why ? x.why : ""); CHECK(ok, "a copy is a well-formed document");
    int e = solitary ? 0 : 1; CHECK((int)x.el.size() > e && Xml::local(x.el[e].name) == "unit", "a copy has the unit");
    CHECK(eq(w.substr(x.el[e].cb, x.el[e].ce - x.el[e].cb), rev < 2 ? k.r[rev] : k.x), "the copy is of the revision");
    if (c == 2) { static const char *A[] = {"filename", "version", "timestamp", "hash"}; Xml z; S q = S("<unit ") + at + "/>"; z.parse(q.data(), q.size(), true); for (int i = 0; i < 4; ++i) { const S *v = z.el[0].get(A[i]), *g = x.el[e].get(A[i]); CHECK((v != 0) == (g != 0), "the attributes are copied"); if (!v) continue; S m = *v; size_t bar = m.find('|'); if (rev < 2 && bar != S::npos) m = rev ? m.substr(bar + 1) : m.substr(0, bar); CHECK(eq(*g, m), "the attributes of the copy are of the revision"); } }
    sym_reach("revision");
}
}
