// Shared by the harnesses: an independent, strict XML reader and thin wrappers over the public API.
#ifndef H_HPP
#define H_HPP
#include "sym.h"
#include "coro.h"
#include <srcml.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <string>
#include <vector>

typedef std::string S;
struct Att { S name, value, raw; };
struct El { S name; std::vector<Att> att; int parent, depth; size_t b, e; /* text range */ size_t db, de; /* document range of the element */ size_t cb, ce; /* document range of the content */ int nkids; int end; /* index one past the last descendant */
    const S *get(const char *n) const { for (size_t i = 0; i < att.size(); ++i) if (att[i].name == n) return &att[i].value; return 0; }
};
// strict, namespace-aware well-formedness checker and tree builder
struct Xml {
    std::vector<El> el; S text; const char *why; size_t pos; bool decl; S encoding, standalone; bool fragment;
    std::vector<std::pair<S, S> > pis;
    const char *p; size_t n;
    Xml() : why(0), pos(0), decl(false), fragment(false), p(0), n(0) {}
    bool fail(const char *w) { if (!why) why = w; return false; }
    static bool sp(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
    static bool name1(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || c >= 0x80; }
    static bool namec(unsigned char c) { return name1(c) || (c >= '0' && c <= '9') || c == '-' || c == '.'; }
    bool at(const char *s) const { size_t k = strlen(s); return pos + k <= n && !memcmp(p + pos, s, k); }
    bool name(S &o) {
        size_t b = pos; int colon = 0;
        if (pos >= n || !name1(p[pos])) return fail("name expected");
        ++pos;
        while (pos < n) { if (namec(p[pos])) ++pos; else if (p[pos] == ':' && !colon && pos + 1 < n && name1(p[pos + 1])) { ++colon; ++pos; } else break; }
        o.assign(p + b, pos - b); return true;
    }
    void ws() { while (pos < n && sp(p[pos])) ++pos; }
    static void utf8(S &o, unsigned c) {
        if (c < 0x80) o += (char)c; else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
        else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
        else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
    }
    bool ref(S &o) {
        if (at("&lt;")) { o += '<'; pos += 4; return true; }
        if (at("&gt;")) { o += '>'; pos += 4; return true; }
        if (at("&amp;")) { o += '&'; pos += 5; return true; }
        if (at("&quot;")) { o += '"'; pos += 6; return true; }
        if (at("&apos;")) { o += '\''; pos += 6; return true; }
        if (at("&#")) {
            pos += 2; unsigned v = 0; bool hex = false; int d = 0;
            if (pos < n && p[pos] == 'x') { hex = true; ++pos; }
            while (pos < n && p[pos] != ';') { char c = p[pos]; int k = c >= '0' && c <= '9' ? c - '0' : hex && c >= 'a' && c <= 'f' ? c - 'a' + 10 : hex && c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; if (k < 0 || d > 7) return fail("bad character reference"); v = v * (hex ? 16 : 10) + k; ++d; ++pos; }
            if (!d || pos >= n) return fail("bad character reference");
            ++pos;
            if (v < 32 && v != 9 && v != 10 && v != 13) return fail("reference to a character that XML does not allow");
            utf8(o, v); return true;
        }
        return fail("bare & or unknown entity");
    }
    bool chr(S &o) {      // one literal character
        unsigned char c = p[pos];
        if (c < 32 && c != '\n' && c != '\t' && c != '\r') return fail("control character in the document");
        if (c < 0x80) { o += (char)c; ++pos; return true; }
        int k = c >= 0xF0 && c < 0xF5 ? 3 : c >= 0xE0 && c < 0xF0 ? 2 : c >= 0xC2 && c < 0xE0 ? 1 : -1;
        if (k < 0 || pos + k >= n + 0 + (pos + k == n ? 0 : 0)) return fail("invalid UTF-8");
        for (int i = 0; i <= k; ++i) { if (i && ((unsigned char)p[pos + i] & 0xC0) != 0x80) return fail("invalid UTF-8"); }
        o.append(p + pos, k + 1); pos += k + 1; return true;
    }
    bool value(S &o, S &raw) {
        if (pos >= n || (p[pos] != '"' && p[pos] != '\'')) return fail("attribute value must be quoted");
        char q = p[pos++]; size_t b = pos;
        while (pos < n && p[pos] != q) {
            if (p[pos] == '<') return fail("< in an attribute value");
            if (p[pos] == '&') { if (!ref(o)) return false; }
            else if (p[pos] == '\n' || p[pos] == '\t' || p[pos] == '\r') { o += ' '; ++pos; }
            else if (!chr(o)) return false;
        }
        if (pos >= n) return fail("unterminated attribute value");
        raw.assign(p + b, pos - b);
        ++pos; return true;
    }
    bool prefixOk(const S &q, int e, bool attr) {
        size_t c = q.find(':');
        if (c == S::npos) { if (attr || fragment) return true; return true; }
        S pre = q.substr(0, c);
        if (pre == "xml" || pre == "xmlns") return true;
        S d = "xmlns:" + pre;
        for (int i = e; i >= 0; i = el[i].parent) if (el[i].get(d.c_str())) return true;
        return fragment ? true : fail("undeclared namespace prefix");
    }
    bool parse(const char *p_, size_t n_, bool frag = false) {
        p = p_; n = n_; pos = 0; fragment = frag;
        if (at("<?xml ")) {
            decl = true; pos += 5;
            int k = 0;
            while (!at("?>")) {
                if (!sp(p[pos])) return fail("malformed XML declaration"); ws(); if (at("?>")) break;
                S a, v, r; if (!name(a)) return false; if (pos >= n || p[pos] != '=') return fail("malformed XML declaration"); ++pos; if (!value(v, r)) return false;
                if (a == "version") { if (k++ || v != "1.0") return fail("bad XML version"); } else if (a == "encoding") { if (!k++) return fail("order in XML declaration"); encoding = v; } else if (a == "standalone") { if (!k++) return fail("order in XML declaration"); standalone = v; } else return fail("bad XML declaration");
            }
            pos += 2;
        }
        int cur = -1; int roots = 0;
        while (pos < n) {
            if (p[pos] == '<') {
                if (at("<!--")) {
                    pos += 4; S junk; while (!at("-->")) { if (at("--")) return fail("-- inside an XML comment"); if (pos >= n) return fail("unterminated XML comment"); if (!chr(junk)) return false; } pos += 3;
                } else if (at("<?")) {
                    pos += 2; S t, d; if (!name(t)) return false; if (t == "xml") return fail("XML declaration in the middle");
                    if (!at("?>")) { if (!sp(p[pos])) return fail("malformed processing instruction"); ws(); }
                    while (!at("?>")) { if (pos >= n) return fail("unterminated processing instruction"); if (!chr(d)) return false; } pos += 2; pis.push_back(std::make_pair(t, d));
                } else if (at("</")) {
                    size_t here = pos; pos += 2; S e; if (!name(e)) return false; ws(); if (pos >= n || p[pos] != '>') return fail("malformed end tag"); ++pos;
                    if (cur < 0) return fail("end tag without a start tag");
                    if (el[cur].name != e) return fail("mismatched end tag");
                    el[cur].e = text.size(); el[cur].ce = here; el[cur].de = pos; el[cur].end = (int)el.size(); cur = el[cur].parent;
                } else if (at("<![CDATA[")) {
                    if (cur < 0) return fail("CDATA outside the root element");
                    pos += 9; while (!at("]]>")) { if (pos >= n) return fail("unterminated CDATA"); if (!chr(text)) return false; } pos += 3;
                } else if (at("<!")) return fail("markup declaration");
                else {
                    size_t here = pos; ++pos; El e; if (!name(e.name)) return false;
                    if (cur < 0 && roots++ && !fragment) return fail("more than one root element");
                    e.parent = cur; e.depth = cur < 0 ? 0 : el[cur].depth + 1; e.b = e.e = text.size(); e.nkids = 0; e.db = here; if (cur >= 0) el[cur].nkids++;
                    for (;;) {
                        bool s = pos < n && sp(p[pos]); ws();
                        if (pos >= n) return fail("unterminated start tag");
                        if (p[pos] == '>' || p[pos] == '/') break;
                        if (!s) return fail("attributes must be separated by space");
                        Att a; if (!name(a.name)) return false;
                        ws(); if (pos >= n || p[pos] != '=') return fail("attribute without a value"); ++pos; ws();
                        if (!value(a.value, a.raw)) return false;
                        if (e.get(a.name.c_str())) return fail("duplicate attribute");
                        e.att.push_back(a);
                    }
                    el.push_back(e); int me = (int)el.size() - 1;
                    if (!prefixOk(el[me].name, me, false)) return false;
                    for (size_t i = 0; i < el[me].att.size(); ++i) if (!prefixOk(el[me].att[i].name, me, true)) return false;
                    if (p[pos] == '/') {
                        ++pos; if (pos >= n || p[pos] != '>') return fail("malformed empty tag"); ++pos; el[me].cb = el[me].ce = pos; el[me].de = pos; el[me].end = me + 1;
                        if (local(el[me].name) == "escape") { const S *c = el[me].get("char"); if (c) { text += (char)strtol(c->c_str(), 0, 16); el[me].e = text.size(); } }
                    } else { ++pos; el[me].cb = pos; cur = me; }
                }
            } else if (p[pos] == '&') { if (cur < 0 && !fragment) return fail("text outside the root element"); if (!ref(text)) return false; }
            else {
                if (cur < 0 && !fragment && !sp(p[pos])) return fail("text outside the root element");
                if (at("]]>")) return fail("]]> in text");
                if (cur < 0 && !fragment) { ++pos; continue; }
                if (!chr(text)) return false;
            }
        }
        if (cur >= 0) return fail("unclosed element");
        if (!roots && !fragment) return fail("no root element");
        return true;
    }
    static S local(const S &q) { size_t c = q.find(':'); return c == S::npos ? q : q.substr(c + 1); }
    S txt(int i) const { return text.substr(el[i].b, el[i].e - el[i].b); }
};

struct Buf { char *p; size_t n; Buf() : p(0), n(0) {} S str() const { return S(p ? p : "", p ? n : 0); } };
static inline S normEol(const S &s) { S o; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '\r') { o += '\n'; if (i + 1 < s.size() && s[i + 1] == '\n') ++i; } else o += s[i]; } return o; }
static inline S nz(const char *p) { return p ? S(p) : S("\1NULL"); }

struct Parsed { S doc; int rc_parse, rc_write; Parsed() : rc_parse(-1), rc_write(-1) {} };
struct POpt { const char *lang, *src_enc, *xml_enc; size_t opts; bool solitary, hash; int tab; POpt() : lang("C++"), src_enc("UTF-8"), xml_enc("UTF-8"), opts(0), solitary(false), hash(false), tab(8) {} };
static inline Parsed parseDoc(const char *src, size_t n, const POpt &o) {
    Parsed r; Buf b;
    srcml_archive *a = srcml_archive_create();
    if (o.opts) srcml_archive_enable_option(a, o.opts);
    if (o.solitary) srcml_archive_enable_solitary_unit(a);
    if (!o.hash) srcml_archive_disable_hash(a);
    srcml_archive_set_xml_encoding(a, o.xml_enc);
    srcml_archive_set_tabstop(a, o.tab);
    srcml_archive_write_open_memory(a, &b.p, &b.n);
    srcml_unit *u = srcml_unit_create(a);
    srcml_unit_set_language(u, o.lang);
    if (o.src_enc) srcml_unit_set_src_encoding(u, o.src_enc);
    r.rc_parse = srcml_unit_parse_memory(u, src, n);
    r.rc_write = srcml_archive_write_unit(a, u);
    srcml_unit_free(u); srcml_archive_close(a); srcml_archive_free(a);
    r.doc = b.str();
    srcml_memory_free(b.p);
    return r;
}
static inline S unparseDoc(const S &doc, const char *enc, int *rc, size_t eol = 0) {
    srcml_archive *a = srcml_archive_create();
    *rc = srcml_archive_read_open_memory(a, doc.data(), doc.size());
    S out;
    if (*rc == 0) {
        srcml_unit *u = srcml_archive_read_unit(a);
        if (u) { if (enc) srcml_unit_set_src_encoding(u, enc); if (eol) srcml_unit_set_eol(u, eol); Buf b; *rc = srcml_unit_unparse_memory(u, &b.p, &b.n); out = b.str(); srcml_memory_free(b.p); srcml_unit_free(u); }
        else *rc = -99;
    }
    srcml_archive_close(a); srcml_archive_free(a);
    return out;
}
// the observable document, with the values of hash attributes masked (the hash function itself is a stub in the symbolic build)
static inline void outDoc(const S &d) {
    size_t b = 0;
    for (;;) { size_t h = S::npos; for (size_t i = b; i + 7 < d.size(); ++i) if (!memcmp(d.data() + i, " hash=\"", 7)) { h = i + 7; break; } if (h == S::npos) break; sym_out(d.data() + b, h - b); b = h; while (b < d.size() && d[b] != '"') ++b; }
    sym_out(d.data() + b, d.size() - b);
}
#define CHECK(c, l) sym_check((c) ? 1 : 0, l)
#endif
