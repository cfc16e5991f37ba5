// Reading srcML documents that other tools wrote or changed (C31).
#include "h.hpp"
#ifndef TIER
#define TIER 1
#endif
static bool eq(const S &a, const S &b) { return a.size() == b.size() && !memcmp(a.data(), b.data(), a.size()); }
#define SRC "http://www.srcML.org/srcML/src"
struct U { S attrs, body, src; };            // attributes as written, content as written, source
// the document as read: what the library says against what is in the document
static int lines(const S &s) { int n = 0; for (char c : s) n += c == '\n'; if (!s.empty() && s[s.size() - 1] != '\n') ++n; return n; }
static S canon(Xml &x, int e) {              // elements, attributes (sorted, without namespace declarations) and text
    S o; size_t t = x.el[e].b;
    o += "<" + Xml::local(x.el[e].name);
    std::vector<S> as; for (auto &a : x.el[e].att) if (a.name != "xmlns" && a.name.compare(0, 6, "xmlns:") != 0) as.push_back(" " + a.name + "=" + a.value);
    for (size_t i = 0; i < as.size(); ++i) for (size_t j = i + 1; j < as.size(); ++j) if (as[j] < as[i]) std::swap(as[i], as[j]);
    for (auto &a : as) o += a;
    o += ">";
    for (int k = e + 1; k < x.el[e].end; k = x.el[k].end) { o += x.text.substr(t, x.el[k].b - t); o += canon(x, k); t = x.el[k].e; }
    o += x.text.substr(t, x.el[e].e - t) + "</>";
    return o;
}
// the namespaces that the elements and attributes of an element are in
static S uri(Xml &x, int e, const S &name, bool att) {
    size_t c = name.find(':'); if (c == S::npos && att) return "-"; S d = c == S::npos ? S("xmlns") : "xmlns:" + name.substr(0, c);
    for (int a = e; a >= 0; a = x.el[a].parent) if (const S *v = x.el[a].get(d.c_str())) { S u = *v, o = "http://www.sdml.info/"; if (u.compare(0, o.size(), o) == 0) u = "http://www.srcML.org/" + u.substr(o.size()); return u; }
    return "?";
}
static S uris(Xml &x, int e) { S o; for (int k = e; k < x.el[e].end; ++k) { o += uri(x, k, x.el[k].name, false) + " " + Xml::local(x.el[k].name) + "\n"; if (k > e) for (auto &a : x.el[k].att) if (a.name.compare(0, 5, "xmlns") != 0) o += " " + uri(x, k, a.name, true) + " " + Xml::local(a.name) + "\n"; } return o; }
static void checkUnit(srcml_unit *u, Xml &doc, int e, const S &raw, const S &src) {
    CHECK(u != 0, "every unit of the document is read");
    S got = srcml_unit_get_srcml(u); Xml x; bool ok = x.parse(got.data(), got.size());
    sym_note("unit\n%s\nfrom\n%s\n%s", got.c_str(), raw.c_str(), x.why ? x.why : "");
    CHECK(ok, "the srcML of the unit is a well-formed document");
    CHECK(eq(canon(x, 0), canon(doc, e)), "the srcML of the unit has the elements, attributes and text of the document");
    { S p = uris(x, 0), q = uris(doc, e); sym_note("namespaces\n%s\nof\n%s", p.c_str(), q.c_str()); CHECK(eq(p, q), "the elements and attributes of the srcML of the unit are in the namespaces they are in in the document"); }
    for (int a = e; a >= 0; a = doc.el[a].parent) for (auto &n : doc.el[a].att) if (n.name.compare(0, 5, "xmlns") == 0) { bool inner = false; for (int b = e; b >= 0 && b != a; b = doc.el[b].parent) inner |= doc.el[b].get(n.name.c_str()) != 0; if (!inner) { const S *v = x.el[0].get(n.name.c_str()); CHECK(v && eq(*v, n.value), "the srcML of the unit declares the namespaces"); } }
    S body = normEol(raw.substr(doc.el[e].cb - doc.el[e].db, doc.el[e].ce - doc.el[e].cb)); S inner = srcml_unit_get_srcml_inner(u);
    CHECK(eq(normEol(inner), body), "the inner srcML is the content of the unit as it is in the document");
    S outer = srcml_unit_get_srcml_outer(u); Xml y; ok = y.parse(outer.data(), outer.size(), true); sym_note("outer %s", outer.c_str());
    CHECK(ok, "the outer srcML is one well-formed element");
    // outer: the same element without url
    { S a = canon(y, 0), b = canon(doc, e); const S *v = doc.el[e].get("url"); if (v) { S k = " url=" + *v; size_t p = b.find(k); b.erase(p, k.size()); } CHECK(eq(a, b), "the outer srcML has the elements, attributes and text of the document"); }
    srcml_unit_set_src_encoding(u, "UTF-8"); Buf o; CHECK(srcml_unit_unparse_memory(u, &o.p, &o.n) == 0, "the source is written"); S s = o.str(); srcml_memory_free(o.p);
    sym_note("source [%s]", s.c_str());
    CHECK(eq(s, src), "the source is the text of the unit");
    CHECK(srcml_unit_get_loc(u) == lines(src), "lines of code are the lines of the source");
    static const char *G[] = {"language", "filename", "url", "version", "timestamp", "hash"};
    const char *V[] = {srcml_unit_get_language(u), srcml_unit_get_filename(u), (const char *)0, srcml_unit_get_version(u), srcml_unit_get_timestamp(u), srcml_unit_get_hash(u)};
    for (int i = 0; i < 6; ++i) if (i != 2) { const S *v = doc.el[e].get(G[i]); CHECK((v != 0) == (V[i] != 0) && (!v || eq(*v, V[i])), "the attributes of the unit are those in the document"); }
}
static void checkDoc(const S &d_, bool skipFirst, bool clone = false) {
    Xml doc; const S d = normEol(d_); bool ok = doc.parse(d.data(), d.size()); sym_note("%s\n%s", d.c_str(), doc.why ? doc.why : ""); if (!ok) { sym_assume(0); return; }
    std::vector<int> us; bool arch = false; for (size_t i = 1; i < doc.el.size(); ++i) if (doc.el[i].parent == 0 && Xml::local(doc.el[i].name) == "unit") { us.push_back((int)i); arch = true; }
    if (!arch) us.push_back(0);
    srcml_archive *a = srcml_archive_create(); CHECK(srcml_archive_read_open_memory(a, d_.data(), d_.size()) == 0, "the document is opened");
    Buf o; srcml_archive *b = clone ? srcml_archive_clone(a) : srcml_archive_create(); srcml_archive_disable_hash(b); if (!arch) srcml_archive_enable_solitary_unit(b); srcml_archive_write_open_memory(b, &o.p, &o.n);
    for (size_t i = 0; i < us.size(); ++i) {
        if (i == 0 && skipFirst) { CHECK(srcml_archive_skip_unit(a) != 0, "a unit is skipped"); continue; }
        srcml_unit *u = srcml_archive_read_unit(a); CHECK(u != 0, "every unit of the document is read");
        checkUnit(u, doc, us[i], d.substr(doc.el[us[i]].db, doc.el[us[i]].de - doc.el[us[i]].db), doc.txt(us[i]));
        CHECK(srcml_archive_write_unit(b, u) == 0, "a unit that was read is written"); srcml_unit_free(u);
    }
    CHECK(srcml_archive_read_unit(a) == 0, "no other unit is read");
    srcml_archive_close(b); srcml_archive_free(b); S c = o.str(); srcml_memory_free(o.p);
    Xml y; ok = y.parse(c.data(), c.size()); sym_note("copy %s\n%s", c.c_str(), y.why ? y.why : ""); CHECK(ok, "a copy is a well-formed document");
    std::vector<int> vs; for (size_t i = 1; i < y.el.size(); ++i) if (y.el[i].parent == 0 && Xml::local(y.el[i].name) == "unit") vs.push_back((int)i); if (!arch) vs.push_back(0);
    size_t k = skipFirst ? 1 : 0; CHECK(vs.size() + k == us.size(), "a copy has the units read");
    for (size_t i = 0; i < vs.size(); ++i) { CHECK(eq(y.txt(vs[i]), doc.txt(us[i + k])), "a copy has the same text"); { S p = uris(y, vs[i]), q = uris(doc, us[i + k]); sym_note("namespaces\n%s\nof\n%s", p.c_str(), q.c_str()); CHECK(eq(p, q), "the elements and attributes of a copy are in the namespaces they are in in the document"); } CHECK(eq(normEol(c.substr(y.el[vs[i]].cb, y.el[vs[i]].ce - y.el[vs[i]].cb)), normEol(d.substr(doc.el[us[i + k]].cb, doc.el[us[i + k]].ce - doc.el[us[i + k]].cb))), "a copy has the same content"); }
    srcml_archive_close(a); srcml_archive_free(a); sym_reach("read");
}
#define ROOTNS "xmlns=\"" SRC "\""
static S run(const char *s, int n) { S o; for (int i = 0; i < n; ++i) o += s; return o; }
// one piece of content
static const int NP = 19;
static S piece(int k, char c) {
    switch (k) {
    case 0: return S("a") + c + "b"; case 1: return S(1, c); case 2: return "&lt;"; case 3: return "&gt;"; case 4: return "&amp;"; case 5: return "&#65;"; case 6: return "&#x3b;";
    case 7: return S("<!-- ") + c + " -->"; case 8: return S("<![CDATA[<") + c + "&\n]]>"; case 9: return S("<?t ") + c + "?>"; case 10: return "<?t?>"; case 11: return "<name/>"; case 12: return "<name></name>";
    case 13: return S("<name k='") + c + ">' >"; case 14: return "</name >"; case 15: return "<escape char=\"0x0c\"/>"; case 16: return "\xC3\xA9"; case 17: return "\r\n"; default: return S("<name\n k = \"1\"\tl='") + "\"' />"; }
}
static S wrap(const S &body, int where, bool solitary) {
    S two = "<unit revision=\"1.0.0\" language=\"C\" filename=\"b\">x\n;</unit>";
    if (solitary) return S("<unit " ROOTNS " revision=\"1.0.0\" language=\"C++\" filename=\"a\">") + body + "</unit>";
    S one = S("<unit revision=\"1.0.0\" language=\"C++\" filename=\"a\">") + body + "</unit>";
    return S("<unit " ROOTNS " revision=\"1.0.0\">\n\n") + (where ? two + "\n\n" + one : one + "\n\n" + two) + "\n\n</unit>\n";
}
extern "C" {
static const char *CN[] = {"content", "content, solitary", "long runs", "tags", "between", "prefixed", "older", "macro list", "redeclared"};
const char *sym_config_name(int c) { return c < 9 ? CN[c] : 0; }
void sym_setup(void) {}
void sym_harness(int c) {
    char s; sym_make(&s, 1);
    if (c < 2) {
        sym_assume((s >= ' ' && s < 127) || s == '\n' || s == '\t');
        S b; int n = TIER > 1 ? 3 : 2; int open = 0; for (int i = 0; i < n; ++i) { int k = sym_choice(NP); if (k == 9) sym_assume(s != ' ' && s != '\n' && s != '\t'); if (k == 13) ++open; if (k == 14 && --open < 0) sym_assume(0); b += piece(k, s); } while (open-- > 0) b += "</name>";
        checkDoc(wrap(b, sym_choice(2), c == 1), false);
    } else if (c == 2) {
        // long text: the parser passes it in pieces and reuses its buffer
        sym_assume(s == 'a' || s == '\n' || s == '>' || s == '<');
        static const char *P[] = {"a", "\xC3\xA9", "\xE2\x82\xAC\n", " ", "&lt;", "<name>z</name>"};
        static const int L[] = {49, 103, 151, 260, 307, 611, 905}; int k = sym_choice(6), w = sym_choice(6), l = L[sym_choice(TIER > 1 ? 7 : 6)], pad = sym_choice(4) * 170;
        S t = run(P[k], l), b = run("q ", pad / 2); if (w && k > 3) sym_assume(0);
        char m = s == '<' ? 'l' : s;
        switch (w) { case 0: b += t; break; case 1: b += "<!--" + t + "-->"; break; case 2: b += "<![CDATA[" + t + S(1, s) + "]]>"; break; case 3: b += "<?t " + t + "?>"; if (k == 3) sym_assume(0); break; case 4: b += "<name k=\"" + t + "\"/>"; break; default: b += "<name>" + t + "</name>" + t; }
        b += S("<name>") + m + "</name>;\n"; checkDoc(wrap(b, 1, sym_choice(2) != 0), sym_choice(2) != 0 && false);
    } else if (c == 3) {
        // start tags of units
        sym_assume(s == '"' || s == '\''); S q(1, s); int form = sym_choice(9); bool solitary = sym_choice(2);
        S ns = "xmlns=" + q + SRC + q, sp = form == 8 ? "\n\t" : " ";
        static const char *A[] = {"revision", "language", "filename", "url", "version", "timestamp"}; static const char *V[] = {"1.0.0", "C", "a xmlns=b>", "u>", "2", "t"};
        S t; int at = sym_choice(4); std::vector<S> as; if (solitary) as.push_back(ns); for (int i = 0; i < 6; ++i) { if (form == 0 && i > 1) continue; if (form == 7) continue; as.push_back(S(A[i]) + (form == 6 ? " = " : "=") + q + V[i] + q); }
        if (solitary) { if (at < (int)as.size()) std::swap(as[0], as[at]); else sym_assume(at == 0); if (form == 5) as.push_back("xmlns:cpp=" + q + "http://www.srcML.org/srcML/cpp" + q); }
        else if (form == 5) as.insert(as.begin() + (at < (int)as.size() ? at : 0), "xmlns:cpp=" + q + "http://www.srcML.org/srcML/cpp" + q);
        else sym_assume(at == 0);
        for (auto &a : as) t += sp + a;
        S u = S("<unit") + t + (form == 3 ? " " : "") + (form == 1 ? "/>" : form == 2 ? " />" : S(">") + (form == 4 ? "" : form == 5 ? "<cpp:if>&gt;</cpp:if>" : "a;\n") + "</unit>");
        S d = solitary ? u : S("<unit ") + ns + ">" + (sym_choice(2) ? "\n\n" : "") + u + u + "</unit>"; checkDoc(d, !solitary && sym_choice(2));
    } else if (c == 4) {
        // what may stand between and around units
        sym_assume(s >= 'a' && s <= 'c'); static const char *J[] = {"", "\n", "<!-- <unit> -->", "<?p i?>", "\n<!--x-->\n", "  "}; static const char *H[] = {"", "<?xml version=\"1.0\"?>", "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n", "<?xml version='1.0'?>\n<!--c-->\n", "<!--c-->", "<?xml version=\"1.0\"?>\n<?p i?>\n"};
        S b = S(1, s) + ";"; S one = "<unit revision=\"1.0.0\" language=\"C\">" + b + "</unit>", two = "<unit language=\"C++\">" + b + b + "</unit>"; bool sol = sym_choice(2); S j[3]; if (!sol) for (int i = 0; i < 3; ++i) j[i] = J[sym_choice(6)];
        S h = H[sym_choice(6)], e = J[sym_choice(6)];
        checkDoc(sol ? h + "<unit " ROOTNS " language=\"C\">" + b + "</unit>" + e : h + "<unit " ROOTNS ">" + j[0] + one + j[1] + two + j[2] + "</unit>" + e, !sol && sym_choice(2));
    } else if (c == 8) {
        // namespaces that the root declares, redeclared by a unit: the same, with another prefix, or the prefix for another one
        sym_assume(s == 's' || s == 'c' || s == 'x'); static const char *N[] = {"http://www.srcML.org/srcML/src", "http://www.srcML.org/srcML/cpp", "u:x", "http://www.srcML.org/srcML/position"}; bool pre = sym_choice(2), upre = sym_choice(2), udecl = sym_choice(2);
        S p = pre ? "src:" : "", ns = (pre ? " xmlns:src=\"" : " xmlns=\"") + S(SRC) + "\"", q = udecl ? (upre ? "src:" : "") : p, u0 = udecl ? (upre ? " xmlns:src=\"" : " xmlns=\"") + S(SRC) + "\"" : S(); if (!udecl && upre) sym_assume(0);
        int r1 = sym_choice(4), d1 = sym_choice(4); char t = sym_choice(2) ? s : 'c'; if (r1) ns += S(" xmlns:") + s + "=\"" + N[r1] + "\""; S in; if (d1) { u0 += S(" xmlns:") + t + "=\"" + N[d1] + "\""; in += S("<") + t + ":e " + t + ":a='1'/>"; } if (r1 && s != t) in += S("<") + s + ":e " + s + ":a='1'/>";
        S b = "<" + q + "name>a" + in + "</" + q + "name>;\n", c2 = "<" + p + "name>a" + (r1 ? S("<") + s + ":e/>" : S()) + "</" + p + "name>;\n", ru = q + "unit", r = p + "unit"; int which = sym_choice(2);
        S uu = "<" + ru + u0 + " language=\"C\">" + b + "</" + ru + ">", vv = "<" + r + " language=\"C\" filename=\"f\">" + c2 + "</" + r + ">"; checkDoc("<" + r + ns + ">" + (which ? vv + uu : uu + vv) + "</" + r + ">", sym_choice(2), sym_choice(2));
    } else if (c == 7) {
        // the list of user-defined macros before the first unit
        sym_assume(s >= 'a' && s <= 'c'); static const char *J[] = {"", "\n", "<!--x-->", "<?p i?>"}; S k = sym_choice(2) ? "<macro-list token=\"t\" type=\"src:macro\"/>" : "<macro-list token='a' type='src:type'></macro-list>", m; int n = sym_choice(3); bool sol = sym_choice(2); if (n == 0) sym_assume(0); for (int i = 0; i < n; ++i) m += J[sym_choice(4)] + k; m += J[sym_choice(4)];
        S b = S(1, s) + ";<name>n</name>"; if (sol) sym_assume(0); checkDoc(S("<unit " ROOTNS ">") + m + "<unit language=\"C\">" + b + "</unit><unit language=\"C++\">" + b + b + "</unit></unit>", sym_choice(2));
    } else if (c == 6) {
        // documents with the namespaces of earlier versions
        sym_assume(s == 's' || s == 'c' || s == 'x'); bool sol = sym_choice(2), pre = sym_choice(2), mix = sym_choice(2); S p = pre ? "src:" : "", ns = (pre ? " xmlns:src=\"" : " xmlns=\"") + S("http://www.sdml.info/srcML/src\""), r = p + "unit", in, uns;
        S d = S(" xmlns:") + s + "=\"" + (mix ? "http://www.srcML.org/" : "http://www.sdml.info/") + "srcML/cpp\""; int own = sym_choice(3); if (own == 0 || sol) { ns += d; in = S("<") + s + ":if/>"; } else if (own == 1) { uns = d; in = S("<") + s + ":if/>"; } else uns = ns;
        S b = "<" + p + "name>a" + in + "</" + p + "name>;\n";
        checkDoc(sol ? "<" + r + ns + " language=\"C\">" + b + "</" + r + ">" : "<" + r + ns + "><" + r + uns + " language=\"C\">" + b + "</" + r + "><" + r + uns + " language=\"C\" filename=\"f\">" + b + b + "</" + r + "></" + r + ">", !sol && sym_choice(2), sym_choice(2));
    } else {
        sym_assume(s >= ' ' && s < 127 && s != '<' && s != '&'); bool sol = sym_choice(2), src = sym_choice(2);
        // namespaces declared on the root, and used in the units
        static const char *N[][2] = {{"cpp", "http://www.srcML.org/srcML/cpp"}, {"c", "http://www.srcML.org/srcML/cpp"}, {"x", "u:x"}, {"pos", "http://www.srcML.org/srcML/position"}, {"err", "http://www.srcML.org/srcML/error"}, {"omp", "http://www.srcML.org/srcML/openmp"}, {"diff", "http://www.srcML.org/srcDiff"}};
        int k = sym_choice(8), k2 = TIER > 1 ? sym_choice(8) : 7, own = sym_choice(2); S p = src ? "src:" : "", ns = (src ? " xmlns:src=\"" : " xmlns=\"") + S(SRC) + "\"", in, uns; if (k2 == k || (k < 2 && k2 < 2)) k2 = 7;
        for (int q : {k, k2}) if (q < 7) { S d = S(" xmlns:") + N[q][0] + "=\"" + N[q][1] + "\""; if (own && q == k && !sol) uns += d; else ns += d; if (own || sol) in += S("<") + N[q][0] + ":e>" + s + "</" + N[q][0] + ":e>"; else in += S("<") + p + "e " + N[q][0] + ":a=\"v\"/>"; }
        S b = "<" + p + "expr><" + p + "name>a" + s + "</" + p + "name>" + in + "&lt;</" + p + "expr>\n", r = p + "unit";
        checkDoc(sol ? "<" + r + ns + " language=\"C\">" + b + "</" + r + ">" : "<" + r + ns + "><" + r + uns + " language=\"C\">" + b + "</" + r + "><" + r + uns + " language=\"C\" filename=\"f\">" + b + b + "</" + r + "></" + r + ">", !sol && sym_choice(2));
    }
}
}
