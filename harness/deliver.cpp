// How source text gets into the library and back out.  PROP 4: delivery; 5: encodings; 6: line endings; 7: hash and lines of code
#include "h.hpp"
#ifndef PROP
#define PROP 4
#endif
#ifndef NB
#define NB 1
#endif
static bool eq(const S &a, const S &b) { return a.size() == b.size() && !memcmp(a.data(), b.data(), b.size()); }
static bool eq(const char *a, const S &b) { return a && strlen(a) == b.size() && !memcmp(a, b.data(), b.size()); }
struct Unit {
    srcml_archive *a; srcml_unit *u; Buf o;
    Unit(const char *lang, const char *enc, bool hash = false) { a = srcml_archive_create(); if (!hash) srcml_archive_disable_hash(a); srcml_archive_write_open_memory(a, &o.p, &o.n); u = srcml_unit_create(a); if (lang) srcml_unit_set_language(u, lang); if (enc) srcml_unit_set_src_encoding(u, enc); }
    S write() { srcml_archive_write_unit(a, u); return close(); }
    S close() { srcml_unit_free(u); srcml_archive_close(a); srcml_archive_free(a); S d = o.str(); srcml_memory_free(o.p); return d; }
};
struct Src { S s; size_t at; int chunk, first, reads, closed; };
static ssize_t rd(void *c, void *b, size_t n) { Src *s = (Src *)c; size_t k = s->s.size() - s->at; size_t m = s->reads++ == 0 ? s->first : s->chunk; if (m && k > m) k = m; if (k > n) k = n; memcpy(b, s->s.data() + s->at, k); s->at += k; return (ssize_t)k; }
static int cl(void *c) { ((Src *)c)->closed++; return 0; }
static void put(S &o, unsigned cp, int e) {        // one character in an encoding: 0 UTF-8, 1 ISO-8859-1, 2 UTF-16LE, 3 UTF-16BE, 4 UTF-32LE, 5 UTF-32BE
    if (e == 0) Xml::utf8(o, cp);
    else if (e == 1) o += (char)cp;
    else if (e == 2) { o += (char)cp; o += (char)(cp >> 8); }
    else if (e == 3) { o += (char)(cp >> 8); o += (char)cp; }
    else if (e == 4) { o += (char)cp; o += (char)(cp >> 8); o += (char)(cp >> 16); o += (char)(cp >> 24); }
    else { o += (char)(cp >> 24); o += (char)(cp >> 16); o += (char)(cp >> 8); o += (char)cp; }
}
#if PROP == 4
// ---- the same text gives the same document, however it is delivered
static const char *CN[] = {"io", "fd", "FILE", "filename", "large io", "large memory", "multibyte io", "crlf io", "read error", "large fd", "large FILE", "large file name"};
static int failAt, failed; static ssize_t rdFail(void *c, void *b, size_t n) { Src *s = (Src *)c; if (s->reads == failAt) { failed = 1; return -1; } return rd(c, b, n); }
extern "C" {
const char *sym_config_name(int c) { return c < 12 ? CN[c] : 0; }
void sym_setup(void) {}
void sym_harness(int c) {
    static const char *T[] = {"a;/*b*/\n", "x=\"s\";\n#define A\n", "if(a)b;"};
    if (c == 8) {
        char q; sym_make(&q, 1); sym_assume(q >= 0); S t = "a;\nb"; t += q; t += ";"; Src s; s.s = t; s.at = 0; s.chunk = 1; s.first = 4; s.reads = 0; s.closed = 0; failAt = sym_choice(6); failed = 0;
        Unit u("C++", "UTF-8"); int rc = srcml_unit_parse_io(u.u, &s, rdFail, cl);
        CHECK((rc != 0) == (failed != 0), "a failing read is an error"); CHECK(s.closed == 1, "the input is closed");
        u.close(); sym_reach("delivered"); return;
    }
    char b[4]; sym_make(b, 2); int nb = 1;
    S text; int chunk = 0, first = 0;
    bool large = c == 4 || c == 5 || c > 8; if (large) {
        // around the size of the read buffer: the symbolic bytes straddle it
        int d = sym_choice(6); text = S((sym_choice(2) ? 4096 : 1024) - 3 + d - 2, ' '); text[3] = '\n'; text[1] = 'k';
        nb = 2; if (sym_choice(2)) { sym_assume((unsigned char)b[0] >= 0xC2 && (unsigned char)b[0] < 0xE0); sym_assume((b[1] & 0xC0) == 0x80); } else { sym_assume(b[0] == '\r' || b[0] == '\n' || b[0] == 'a' || b[0] == '"'); sym_assume(b[1] >= 0); }
        text.append(b, 2); text += ";c\n";
        if (c == 4 || c == 9) chunk = sym_choice(2) ? 0 : 1000; first = chunk; if (c > 8) c -= 8;
    } else if (c == 6) {
        sym_assume((unsigned char)b[0] >= 0xC2 && (unsigned char)b[0] < 0xE0); sym_assume((b[1] & 0xC0) == 0x80); nb = 2;
        text = "a=\"\";\n"; text.insert(3, b, 2); text.insert(sym_choice(2) ? 0 : 3, "\xE2\x82\xAC"); chunk = 1 + sym_choice(3); first = 1 + sym_choice(5);
    } else if (c == 7) {
        text = "a;\r\n\r/*\r\n*/\r"; int pos = sym_choice((int)text.size()); sym_assume(b[0] >= 0); text[pos] = b[0]; chunk = 1 + sym_choice(3); first = 1 + sym_choice(5);
    } else {
        text = T[sym_choice(3)]; int pos = sym_choice((int)text.size() + 1); sym_assume(b[0] >= 0); text.insert(pos, b, 1);
        if (c <= 1) { chunk = sym_choice(3); chunk = chunk == 0 ? 1 : chunk == 1 ? 3 : 0; first = sym_choice(2) ? chunk : 2; }
    }
    S base; { Unit u("C++", "UTF-8"); CHECK(srcml_unit_parse_memory(u.u, text.data(), text.size()) == 0, "parses from memory"); base = u.write(); }
    if (c == 5) {   // in the middle of a longer buffer
        S big = "zz" + text + "#"; Unit u("C++", "UTF-8"); CHECK(srcml_unit_parse_memory(u.u, big.data() + 2, text.size()) == 0, "parses from memory"); S d = u.write(); CHECK(eq(d, base), "only the given range is read");
        int rc; S back = unparseDoc(base, "UTF-8", &rc); CHECK(rc == 0 && eq(back, normEol(text)), "and the text comes back"); sym_reach("delivered"); sym_out(d.data(), d.size()); return;
    }
    Unit u("C++", "UTF-8"); int rc = -1; Src s; s.s = text; s.at = 0; s.chunk = chunk; s.first = first; s.reads = 0; s.closed = 0;
    FILE *f = 0;
    if (c == 0 || c == 4 || c == 6 || c == 7) rc = srcml_unit_parse_io(u.u, &s, rd, sym_choice(2) ? cl : 0);
    else if (c == 1) { int fd = sym_vfd(text.data(), text.size(), chunk); rc = srcml_unit_parse_fd(u.u, fd); }
    else { sym_file("vfs_a.cpp", text.data(), text.size()); if (c == 2) { f = fopen("vfs_a.cpp", "rb"); rc = srcml_unit_parse_FILE(u.u, f); } else rc = srcml_unit_parse_filename(u.u, "vfs_a.cpp"); }
    CHECK(rc == 0, "the delivered text parses");
    CHECK(s.closed <= 1, "closed at most once");
    if (f) fclose(f);
    S d = u.write();
    sym_note("%s\n%s", base.c_str(), d.c_str());
    CHECK(eq(d, base), "the document does not depend on how the text is delivered");
    CHECK(sym_openfds() == 0, "no descriptor is left open");
    sym_out(d.data(), d.size());
    sym_reach("delivered");
}
}
#elif PROP == 5
// ---- encodings: the characters of the document are those of the source in its encoding, and come back in it
struct Enc { const char *name, *enc; int e; const char *bom; const char *reports; };
static const Enc ENC[] = {
    {"UTF-8", "UTF-8", 0, "", "UTF-8"}, {"ISO-8859-1", "ISO-8859-1", 1, "", "ISO-8859-1"}, {"default is ISO-8859-1", 0, 1, "", "ISO-8859-1"}, {"lower case", "utf-8", 0, "", "UTF-8"},
    {"UTF-8 BOM", 0, 0, "\xEF\xBB\xBF", "UTF-8"}, {"UTF-8 BOM and set", "UTF-8", 0, "\xEF\xBB\xBF", "UTF-8"}, {"UTF-16LE BOM", 0, 2, "\xFF\xFE", "UTF-16"}, {"UTF-16BE BOM", 0, 3, "\xFE\xFF", "UTF-16"},
    {"UTF-16LE", "UTF-16LE", 2, "", "UTF-16LE"}, {"UTF-16BE", "UTF-16BE", 3, "", "UTF-16BE"}, {"archive encoding", "UTF-8", 0, "", "UTF-8"}, {"UTF-8 3 bytes", "UTF-8", 0, "", "UTF-8"}, {"UTF-16 BOM and set", "UTF-16", 2, "\xFF\xFE", "UTF-16"},
    {"UTF-32LE BOM", 0, 4, "\xFF\xFE@@", "UTF-32"}, {"UTF-32BE BOM", 0, 5, "@@\xFE\xFF", "UTF-32"}, {"alias UTF16", "utf16", 2, "\xFF\xFE", "UTF-16"}, {"unsupported", "no-such-encoding", 0, "", 0}, {"any bytes as UTF-8", "UTF-8", 0, "", 0}, {"any bytes as UTF-16LE", "UTF-16LE", 2, "", 0}};
// the encoding of a unit is its own, else that of its archive, else ISO-8859-1, for reading and for writing source
static const char *NM[] = {"UTF-8", "ISO-8859-1", "UTF-16LE", "UTF-16BE"};
static S text(unsigned cp, int e) { S r; for (const char *p = "a=\"x\";\n"; *p; ++p) put(r, *p == 'x' ? cp : *p, e); return r; }
static void precedence() {
    unsigned char ch; sym_make(&ch, 1); sym_assume(ch >= 0xA0 || ch == '<'); unsigned cp = ch; int phase = sym_choice(2); size_t store = sym_choice(2) ? SRCML_OPTION_STORE_ENCODING : 0;
    // the encodings when parsing
    int ae = phase ? 4 : sym_choice(5), ue = phase ? sym_choice(4) : sym_choice(5), e = ue < 4 ? ue : ae < 4 ? ae : 1; S raw = text(cp, e), utf = text(cp, 0);
    srcml_archive *a = srcml_archive_create(); Buf o; srcml_archive_disable_hash(a); if (store) srcml_archive_enable_option(a, store); if (ae < 4) srcml_archive_set_src_encoding(a, NM[ae]); bool sol = phase && sym_choice(2); if (sol) srcml_archive_enable_solitary_unit(a);
    srcml_archive_write_open_memory(a, &o.p, &o.n); srcml_unit *u = srcml_unit_create(a); srcml_unit_set_language(u, "C++"); if (ue < 4) srcml_unit_set_src_encoding(u, NM[ue]); CHECK(srcml_unit_parse_memory(u, raw.data(), raw.size()) == 0, "the text parses");
    CHECK(nz(srcml_unit_get_src_encoding(u)) == NM[e], "the encoding in use is reported"); CHECK(srcml_archive_write_unit(a, u) == 0, "written"); srcml_unit_free(u); srcml_archive_close(a); srcml_archive_free(a); S d = o.str(); srcml_memory_free(o.p); outDoc(d); sym_note("%s", d.c_str());
    Xml x; bool ok = x.parse(d.data(), d.size()); CHECK(ok, "the document is well-formed XML"); CHECK(eq(x.txt(sol ? 0 : 1), utf), "the characters of the document are those of the source");
    const S *rec = x.el[sol ? 0 : 1].get("src-encoding"); CHECK(!!rec == !!store && (!rec || *rec == NM[e]), "the encoding is recorded when asked for");
    if (!phase) return;
    // the encodings when writing source: those set on the archive that is read and on the unit, and the recorded one
    int ra = sym_choice(5), ru = sym_choice(5); srcml_archive *r = srcml_archive_create(); if (ra < 4) srcml_archive_set_src_encoding(r, NM[ra]); CHECK(srcml_archive_read_open_memory(r, d.data(), d.size()) == 0, "opens"); srcml_unit *w = srcml_archive_read_unit(r); CHECK(w != 0, "unit");
    if (store && ru == 4) sym_assume(ra == 4);      // whether a recorded encoding is used when none is set on the unit is left open
    if (ru < 4) srcml_unit_set_src_encoding(w, NM[ru]);
    int eff = ru < 4 ? ru : ra < 4 ? ra : 1; Buf q; if (store && ru == 4 && e != 1) sym_assume(0); CHECK(srcml_unit_unparse_memory(w, &q.p, &q.n) == 0, "the source is written"); S got = q.str(); srcml_memory_free(q.p); sym_note("archive %d unit %d recorded %d", ra, ru, store ? e : 4); CHECK(eq(got, text(cp, eff)), "the source is written in the encoding of the unit, else of the archive");
    srcml_unit_free(w); srcml_archive_close(r); srcml_archive_free(r);
}
extern "C" {
const char *sym_config_name(int c) { return c < 19 ? ENC[c].name : c == 19 ? "precedence" : c == 20 ? "large" : 0; }
void sym_setup(void) {}
void sym_harness(int c) {
    if (c == 19) { precedence(); sym_reach("encoded"); return; }
    if (c == 20) {       // text that takes several reads, with a character that straddles them
        static const int W[] = {4, 6, 7, 13, 14, 1}; unsigned char b[2]; sym_make(b, 2); const Enc &k = ENC[W[sym_choice(6)]]; sym_assume(b[1] < 8 && b[0] >= 0x20); if (k.e == 1 || k.e > 3) sym_assume(b[1] == 0 && b[0] != 0x7f); unsigned cp = b[0] | b[1] << 8; sym_assume(cp != 0x7f);
        S raw, utf; for (const char *p = k.bom; *p; ++p) raw += *p == '@' ? 0 : *p; int w = k.e < 2 ? 1 : k.e < 4 ? 2 : 4, to = (sym_choice(2) ? 4096 : 1024) - 4 * w + sym_choice(5) * w; const char *A = "/* "; for (const char *p = A; *p; ++p) { put(raw, *p, k.e); utf += *p; }
        while ((int)raw.size() < to) { put(raw, '.', k.e); utf += '.'; } put(raw, cp, k.e); Xml::utf8(utf, cp); for (const char *p = "\xE9*/\n"; *p; ++p) { put(raw, (unsigned char)*p, k.e); Xml::utf8(utf, (unsigned char)*p); }
        S d; { Unit u("C++", k.enc); Src s; s.s = raw; s.at = 0; s.chunk = s.first = sym_choice(2) ? 0 : 999; s.reads = 0; s.closed = 0; int how = sym_choice(2); if (!how && s.chunk) sym_assume(0); int rc = how ? srcml_unit_parse_io(u.u, &s, rd, cl) : srcml_unit_parse_memory(u.u, raw.data(), raw.size());
          CHECK(rc == 0, "the text parses"); CHECK(nz(srcml_unit_get_src_encoding(u.u)) == k.reports, "the encoding in use is reported"); d = u.write(); }
        Xml x; bool ok = x.parse(d.data(), d.size()); CHECK(ok, "the document is well-formed XML"); CHECK(eq(x.txt(1), utf), "the characters of the document are those of the source"); sym_reach("encoded"); return;
    }
    const Enc &k = ENC[c];
    if (c >= 17) {     // text that is not in the encoding is an error and not silently shortened
        char b[4]; sym_make(b, 3); b[3] = 0; S raw; bool valid = true;
        if (c == 17) {
            sym_assume((unsigned char)b[0] >= 0x80); sym_assume(b[2] == 'x' || (unsigned char)b[2] >= 0x80); raw = "a=\""; int tail = sym_choice(2); S mid(b, 3); raw += mid; if (tail) raw += "\";";
            Xml v; v.p = raw.data(); v.n = raw.size(); S o; while (v.pos < v.n && (valid = v.chr(o))) ;
            // what the reader accepts beyond well-formedness: no surrogates, no overlong forms, nothing above U+10FFFF
            for (size_t i = 0; i + 1 < raw.size(); ++i) { unsigned char x = raw[i], y = raw[i + 1]; if ((x == 0xE0 && y < 0xA0) || (x == 0xED && y >= 0xA0) || (x == 0xF0 && y < 0x90) || (x == 0xF4 && y >= 0x90)) if (y >= 0x80) valid = false; }
        } else { raw.append("a\0=\0\"\0", 6); int n = 1 + sym_choice(3); if (n < 3) sym_assume(b[2] == 0); if (n < 2) sym_assume(b[1] == 0); raw.append(b, n); if (n > 2) raw += '\0'; unsigned char h = n >= 2 ? b[1] : 0; valid = n != 1 && !(h >= 0xD8 && h < 0xE0); }
        Unit u("C++", k.enc); Src s; s.s = raw; s.at = 0; s.chunk = 2; s.first = 0; s.reads = 0; s.closed = 0; int how = sym_choice(2);
        int rc = how ? srcml_unit_parse_io(u.u, &s, rd, cl) : srcml_unit_parse_memory(u.u, raw.data(), raw.size());
        CHECK((rc == 0) == valid, "text that is not in its encoding is an error");
        u.close(); sym_out(&rc, 4); sym_reach("encoded"); return;
    }
    if (!k.reports) { Unit u("C++", k.enc); int rc = srcml_unit_parse_memory(u.u, "a;", 2); CHECK(rc != 0, "an unknown encoding is an error"); u.close(); sym_reach("encoded"); return; }
    // the text: fixed characters around one symbolic character
    unsigned char b[2]; sym_make(b, 2);
    unsigned cp = b[0];
    if (k.e >= 4) { sym_assume(b[0] >= 1 && b[1] == 0); }
    else if (c == 11) { sym_assume(b[1] >= 8 && b[1] < 0xD8); cp = b[0] | b[1] << 8; }
    else if (k.e == 0 || k.e == 2 || k.e == 3) { sym_assume(b[1] < 8); sym_assume(b[0] >= 1 || b[1] >= 1); cp = b[0] | b[1] << 8; }
    else sym_assume(b[0] >= 1);
    int where = sym_choice(3);
    static const char *PRE[] = {"a=\"", "/*", "b "}, *POST[] = {"\";\n", "*/c\n", ";"};
    S raw, utf;
    for (const char *p = k.bom; *p; ++p) raw += *p == '@' ? 0 : *p;
    for (const char *p = PRE[where]; *p; ++p) { put(raw, *p, k.e); utf += *p; }
    put(raw, cp, k.e); Xml::utf8(utf, cp);
    for (const char *p = POST[where]; *p; ++p) { put(raw, *p, k.e); utf += *p; }
    // C1 control characters and the like are legal XML; DEL and C0 controls become escape elements, whose value the reader decodes
    S want = normEol(utf);
    S d;
    { Unit u("C++", c == 10 ? 0 : k.enc); if (c == 10) srcml_archive_set_src_encoding(u.a, k.enc);
      Src s; s.s = raw; s.at = 0; s.chunk = 0; s.first = 0; s.reads = 0; s.closed = 0; int how = sym_choice(2); if (how) s.first = s.chunk = 3;
      int rc = how ? srcml_unit_parse_io(u.u, &s, rd, cl) : srcml_unit_parse_memory(u.u, raw.data(), raw.size());
      CHECK(rc == 0, "the text parses");
      CHECK(nz(srcml_unit_get_src_encoding(u.u)) == k.reports, "the encoding in use is reported");
      d = u.write(); }
    outDoc(d); sym_note("%s", d.c_str());
    Xml x; bool ok = x.parse(d.data(), d.size()); if (!ok) sym_note("not well-formed: %s", x.why);
    CHECK(ok, "the document is well-formed XML");
    CHECK(eq(x.txt(1), want), "the characters of the document are those of the source");
    int rc; S back;
    back = unparseDoc(d, "UTF-8", &rc); CHECK(rc == 0 && eq(back, want), "the characters come back as UTF-8");
    if (k.e == 1) {
        back = unparseDoc(d, "ISO-8859-1", &rc); S w; S r = raw; w = normEol(r); CHECK(rc == 0 && eq(back, w), "and in the encoding they came in");
    } else if (k.e == 2 && !*k.bom) { S w; for (size_t i = 0; i < raw.size(); i += 2) { if (raw[i] == '\r' && !raw[i + 1]) { w += '\n'; w += '\0'; if (i + 3 < raw.size() && raw[i + 2] == '\n' && !raw[i + 3]) i += 2; } else { w += raw[i]; w += raw[i + 1]; } } back = unparseDoc(d, "UTF-16LE", &rc); CHECK(rc == 0 && eq(back, w), "and in the encoding they came in"); }
    sym_reach("encoded");
}
}
#elif PROP == 6
// ---- line endings
static const char *CN[] = {"auto", "LF", "CR", "CRLF"};
extern "C" {
const char *sym_config_name(int c) { return c < 4 ? CN[c] : 0; }
void sym_setup(void) {}
void sym_harness(int c) {
    static const char *T[] = {"a;\nb;\r\nc;\rd;", "/*\n\r*/\"\r\n\"", "\n\n\r\r\n", "#define A\\\r\nb\r\nc"};
    S text = T[sym_choice(4)]; int pos = sym_choice((int)text.size() + 1); char b[2]; sym_make(b, 2); sym_assume(b[0] >= 0);
    int mode = sym_choice(3);
    if (mode == 0) text.insert(pos, b, 1); else if (mode == 1) { if (pos < (int)text.size()) text[pos] = b[0]; } else { sym_assume(b[1] == '\n' || b[1] == '\r'); text.insert(pos, b, 2); }
    POpt o; Parsed r = parseDoc(text.data(), text.size(), o);
    CHECK(r.rc_parse == 0, "every text parses");
    sym_out(r.doc.data(), r.doc.size());
    Xml x; CHECK(x.parse(r.doc.data(), r.doc.size()), "the document is well-formed XML");
    S want = normEol(text);
    CHECK(eq(x.txt(1), want), "every line ending in the document is a line feed");
    int rc; S back = unparseDoc(r.doc, 0, &rc, c == 0 ? 0 : c);
    S w; for (size_t i = 0; i < want.size(); ++i) if (want[i] != '\n') w += want[i]; else w += c == 2 ? "\r" : c == 3 ? "\r\n" : "\n";
    CHECK(rc == 0 && eq(back, w), "every line ending comes back as the one asked for");
    sym_out(back.data(), back.size());
    // the conversion of the line endings is not applied to the unit itself: asked again, the text is the same
    srcml_archive *a = srcml_archive_create(); CHECK(srcml_archive_read_open_memory(a, r.doc.data(), r.doc.size()) == 0, "opens"); srcml_unit *u = srcml_archive_read_unit(a); CHECK(u != 0, "unit");
    srcml_unit_set_eol(u, c); Buf q; srcml_unit_unparse_memory(u, &q.p, &q.n); srcml_memory_free(q.p); Buf q2; srcml_unit_set_eol(u, 1); srcml_unit_unparse_memory(u, &q2.p, &q2.n); S s2 = q2.str(); srcml_memory_free(q2.p);
    CHECK(eq(s2, want), "converting line endings leaves the unit unchanged");
    srcml_unit_free(u); srcml_archive_close(a); srcml_archive_free(a);
    sym_reach("converted");
}
}
#else
// ---- hash and lines of code
#include <openssl/sha.h>
static S hashOf(const S &s) { unsigned char md[20]; SHA1((const unsigned char *)s.data(), s.size(), md); S o; for (int i = 0; i < 20; ++i) { o += "0123456789abcdef"[md[i] >> 4]; o += "0123456789abcdef"[md[i] & 15]; } return o; }
static int locOf(const S &s) { int n = 0; S t = normEol(s); for (size_t i = 0; i < t.size(); ++i) if (t[i] == '\n') ++n; return n + (t.empty() || t[t.size() - 1] != '\n'); }
static const char *CN[] = {"memory", "io", "reparse", "hash disabled", "written and read", "file"};
extern "C" {
const char *sym_config_name(int c) { return c < 6 ? CN[c] : 0; }
void sym_setup(void) {}
void sym_harness(int c) {
    static const char *T[] = {"", "a;\nb;\r\nc;", "x;\n\n/*\r*/\n"};
    S text = T[sym_choice(3)]; int pos = sym_choice((int)text.size() + 1); char b[1]; sym_make(b, 1); sym_assume(b[0] >= 0); text.insert(pos, b, 1);
    int enc = sym_choice(2); if (enc) { S t; for (size_t i = 0; i < text.size(); ++i) { t += text[i]; t += '\0'; } S n = t; S ascii = text; text = n; }
    S plain; if (enc) { for (size_t i = 0; i < text.size(); i += 2) plain += text[i]; } else plain = text;
    Unit u("C++", enc ? "UTF-16LE" : "UTF-8", true); if (c == 3) srcml_archive_disable_hash(u.a);
    Src s; s.s = text; s.at = 0; s.chunk = 3; s.first = 1; s.reads = 0; s.closed = 0; int rc;
    if (c == 2) { rc = srcml_unit_parse_memory(u.u, enc ? "q\0;\0\n\0" : "q;\n", enc ? 6 : 3); CHECK(rc == 0, "parses"); }
    if (c == 1) rc = srcml_unit_parse_io(u.u, &s, rd, cl);
    else if (c == 5) { sym_file("vfs_h.cpp", text.data(), text.size()); rc = srcml_unit_parse_filename(u.u, "vfs_h.cpp"); }
    else rc = srcml_unit_parse_memory(u.u, text.data(), text.size());
    CHECK(rc == 0, "every text parses");
    S h = hashOf(text); int loc = locOf(plain);
    const char *g = srcml_unit_get_hash(u.u);
    sym_note("hash %s want %s loc %d want %d", g ? g : "none", h.c_str(), srcml_unit_get_loc(u.u), loc);
    if (c == 3) CHECK(g == 0, "no hash when it is disabled"); else CHECK(eq(g, h), "the hash is that of the bytes of the source");
    CHECK(srcml_unit_get_loc(u.u) == loc, "the lines of code are the lines of the source");
    S d = u.write(); Xml x; CHECK(x.parse(d.data(), d.size()), "the document is well-formed XML");
    const S *a = x.el[1].get("hash"); if (c == 3) CHECK(a == 0, "no hash in the document when it is disabled"); else CHECK(a && eq(*a, h), "the document records the hash");
    outDoc(d); sym_out(&loc, 4);
    if (c == 4) {
        // three units in an archive, each read or skipped
        srcml_archive *o = srcml_archive_create(); srcml_archive_enable_hash(o); Buf m; CHECK(srcml_archive_write_open_memory(o, &m.p, &m.n) == 0, "opens for writing");
        S txt[3] = {"q;\n\n\n\n\nr;", plain, "z;\n"}, hs[3] = {hashOf(txt[0]), h, hashOf(txt[2])}; int skip = sym_choice(3);
        for (int i = 0; i < 3; ++i) { srcml_unit *w = srcml_unit_create(o); srcml_unit_set_language(w, "C++"); srcml_unit_set_src_encoding(w, i == 1 && enc ? "UTF-16LE" : "UTF-8"); const S &z = i == 1 ? text : txt[i]; CHECK(srcml_unit_parse_memory(w, z.data(), z.size()) == 0, "parses"); CHECK(srcml_archive_write_unit(o, w) == 0, "written"); srcml_unit_free(w); }
        srcml_archive_close(o); srcml_archive_free(o); S doc = m.str(); srcml_memory_free(m.p);
        srcml_archive *r = srcml_archive_create(); CHECK(srcml_archive_read_open_memory(r, doc.data(), doc.size()) == 0, "opens");
        for (int i = 0; i < 3; ++i) {
            if (skip == i + 1) { CHECK(srcml_archive_skip_unit(r), "skipped"); continue; }
            srcml_unit *w = srcml_archive_read_unit(r); CHECK(w != 0, "unit");
            CHECK(eq(srcml_unit_get_hash(w), hs[i]), "the hash is read back");
            CHECK(srcml_unit_get_srcml(w) != 0, "body");
            sym_note("read loc %d", srcml_unit_get_loc(w));
            CHECK(srcml_unit_get_loc(w) == locOf(txt[i]), "the lines of code of a unit that is read are those of its source");
            srcml_unit_free(w);
        }
        srcml_archive_close(r); srcml_archive_free(r);
    }
    sym_reach("hashed");
}
}
#endif
