// The command-line client showing what a document holds (C26).
#include "h.hpp"
#include "minilibarchive.hpp"
#include <srcml_options.hpp>
#include <srcml_utilities.hpp>
#include <srcml_cli.hpp>
#include <srcml_pretty.hpp>
#include <srcml_display_metadata.hpp>
#include <SRCMLStatus.hpp>
#include <iostream>
#include <iomanip>
#include <sstream>
#include <fcntl.h>
#include <unistd.h>
#ifndef TIER
#define TIER 1
#endif
static bool eq(const S &a, const S &b) { return a.size() == b.size() && !memcmp(a.data(), b.data(), a.size()); }
// streams whose characters are kept in memory of the harness
struct Cap : std::streambuf {
    S s;
    int_type overflow(int_type c) override { if (c != -1) s += (char)c; return c == -1 ? 0 : c; }
    std::streamsize xsputn(const char *p, std::streamsize n) override { s.append(p, n); return n; }
};
namespace std { struct cap_ostringstream : ostream { Cap c; cap_ostringstream() : ostream(nullptr) { rdbuf(&c); } S str() const { return c.s; } }; }
#define ostringstream cap_ostringstream
#include <srcml_pretty.cpp>
#include <srcml_display_metadata.cpp>
#undef ostringstream
#define NSX "xmlns=\"http://www.srcML.org/srcML/src\""
struct U { bool fn, lang, ver, hash, ts, enc; S name; int loc; };
static const char *V[] = {"C", "C++", "Java"};
static std::vector<U> us; static S doc; static bool arch, url, enc, ns, version; static S urlv;
static S lang(int i) { return V[i]; } static S ver(int i) { return S("v") + (char)('0' + i); } static S hashv(int i) { return S("h") + (char)('0' + i); } static S ts(int i) { return S("t") + (char)('0' + i); }
static void make(bool need) {
    us.clear(); arch = sym_choice(2); url = sym_choice(2); enc = sym_choice(2); ns = sym_choice(2); version = ns && arch; char b = (char)sym_byte(); int where = sym_choice(3);
    sym_assume(b >= 32 && b < 127 && !(b == '<') && !(b == '&') && !(b == '"'));
    if (TIER < 2) sym_assume(b == '%' || b == '{' || b == '}' || b == 'a' || b == ' ');
    urlv = "u"; if (where == 0) { sym_assume(url); urlv += b; }
    int n = arch ? 1 + sym_choice(TIER > 1 ? 3 : 2) : 1;
    doc = enc ? "<?xml version=\"1.0\" encoding=\"ISO-8859-1\" standalone=\"yes\"?>\n" : "";
    S at = S(" " NSX) + (ns ? " xmlns:p=\"http://p\"" : "") + " revision=\"1.0.0\"" + (url ? " url=\"" + urlv + "\"" : S()) + (version ? " version=\"V\"" : "");
    if (arch) doc += "<unit" + at + ">\n\n";
    for (int i = 0; i < n; ++i) {
        U u; u.name = S("f") + (char)('0' + i); int m = sym_choice(i || need ? 4 : TIER > 1 ? 32 : 12);   // which of the attributes there are
        if (i || need || TIER < 2) m = m == 0 ? 31 : m == 1 ? 2 : m == 2 ? 31 - 1 : m == 3 ? 31 - 4 : m == 4 ? 0 : m == 5 ? 1 : m == 6 ? 4 : m == 7 ? 8 : m == 8 ? 16 : m == 9 ? 29 : m == 10 ? 23 : 15;
        u.fn = m & 1; u.lang = m & 2; u.ver = m & 4; u.hash = m & 8; u.ts = m & 16; u.enc = arch && ns && u.ts; if (where == 1 && i + 1 == n) { sym_assume(u.fn); u.name += b; }
        u.loc = 1 + (i & 1);
        doc += S("<unit") + (arch ? S(" revision=\"1.0.0\"") : at) + (u.lang ? " language=\"" + lang(i) + "\"" : S()) + (u.fn ? " filename=\"" + u.name + "\"" : S()) + (u.ver ? " version=\"" + ver(i) + "\"" : S()) + (u.ts ? " timestamp=\"" + ts(i) + "\"" : S()) + (u.enc ? " src-encoding=\"E\"" : "") + (u.hash ? " hash=\"" + hashv(i) + "\"" : S()) + ">a\n" + (i & 1 ? "b\n" : "") + "</unit>" + (arch ? "\n\n" : "\n");
        us.push_back(u);
    }
    if (arch) doc += "</unit>\n";
    if (where == 2) sym_assume(b == 'a');
}
static int how_in;
static S shown(srcml_request_t &r, int cmd) {
    r.command = cmd; SRCMLOptions::set(cmd); sym_file("vfs_a.xml", doc.data(), doc.size()); sym_note("%s", doc.c_str());
    srcml_input_t in; in.push_back(srcml_input_src("vfs_a.xml")); Cap c; std::streambuf *old = std::cout.rdbuf(&c);
    int fd = -1; FILE *fp = 0; how_in = cmd == SRCML_COMMAND_UNITS || cmd == SRCML_COMMAND_LIST ? sym_choice(3) : 0;      // from a name, a descriptor or a stream
    int open = sym_openfds();
    if (how_in == 1) { fd = ::open("vfs_a.xml", O_RDONLY); in[0] = srcml_input_src("vfs_a.xml", fd); } else if (how_in == 2) { fp = fopen("vfs_a.xml", "rb"); in[0].fileptr = fp; }
    srcml_display_metadata(r, in, srcml_output_dest("-"));
    if (how_in) { close(fd); if (fp) fclose(fp); } else CHECK(sym_openfds() == open, "what was opened is closed");
    std::cout.flush(); std::cout.rdbuf(old); sym_out(c.s.data(), c.s.size()); sym_note("---shown\n%s", c.s.c_str());
    return c.s;
}
static S squeeze(const S &s) { S r; for (size_t i = 0; i < s.size(); ++i) if (!(s[i] == ' ' && (r.empty() || r[r.size() - 1] == ' ' || r[r.size() - 1] == '\n'))) r += s[i]; return r; }
// a value that is not there has no line, or, next to others, an empty one
struct Lines { S text; size_t at; Lines(const S &t) : text(t), at(0) {} void line(const char *key, bool single, bool has, const S &v) {
    S w = single ? v + "\n" : S(key) + "=\"" + (has ? v : S()) + "\"\n"; bool is = text.size() >= at + w.size() && !memcmp(text.data() + at, w.data(), w.size());
    if (!has) { if (!single && is) at += w.size(); return; }
    sym_note("expected %s", w.c_str()); CHECK(is, "each value of the document is shown, in order"); at += w.size(); } };
static srcml_request_t request() { srcml_request_t r; r.markup_options = 0; r.unit = 0; return r; }
extern "C" {
static const char *CN[] = {"values", "count", "information", "list", "prefix", "format", "one unit", "parts of a format"};
const char *sym_config_name(int c) { return c < 8 ? CN[c] : 0; }
void sym_setup(void) { std::cerr.setstate(std::ios::failbit); }
void sym_harness(int c) {
    make(c == 1 || c == 3); srcml_request_t r = request(); coro_on(1, 0, 0);
    S E = enc ? "ISO-8859-1" : "UTF-8";
    if (c == 0 || c == 6) {
        static const int CMD[] = {SRCML_COMMAND_DISPLAY_SRCML_ENCODING, SRCML_COMMAND_DISPLAY_SRCML_URL, SRCML_COMMAND_DISPLAY_SRCML_FILENAME, SRCML_COMMAND_DISPLAY_SRCML_LANGUAGE, SRCML_COMMAND_DISPLAY_SRCML_SRC_VERSION, SRCML_COMMAND_DISPLAY_SRCML_HASH, SRCML_COMMAND_DISPLAY_SRCML_TIMESTAMP};
        int k = TIER > 1 ? 1 + sym_choice(127) : sym_choice(24), cmd = 0;
        if (TIER < 2) k = k < 7 ? 1 << k : k == 7 ? 127 : k < 15 ? 127 - (1 << (k - 8)) : 3 << (k - 15) & 127; 
        if (!k) sym_assume(0);
        for (int i = 0; i < 7; ++i) if (k >> i & 1) cmd |= CMD[i];
        bool one = !(k & (k - 1)); int from = 0, to = (int)us.size();
        if (c == 6) { r.unit = 1 + sym_choice(to); from = r.unit - 1; to = r.unit; }
        Lines l(shown(r, cmd));
        if (k & 1) l.line("encoding", one, enc || l.text.find(E) != S::npos, E);
        if (k & 2) l.line("url", one, url, urlv);
        for (int i = from; i < to; ++i) {
            const U &u = us[i];
            if (k & 4) l.line("filename", one, u.fn, u.name);
            if (k & 8) l.line("language", one, u.lang, lang(i));
            if (k & 16) l.line("version", one, u.ver, ver(i));
            if (k & 32) l.line("hash", one, u.hash, hashv(i));
            if (k & 64) l.line("timestamp", one, u.ts, ts(i));
        }
        CHECK(l.at == l.text.size(), "nothing else is shown");
    } else if (c == 1) {
        int n = 0; for (size_t i = 0; i < us.size(); ++i) n += us[i].lang; S w; w += (char)('0' + n); w += "\n";
        CHECK(eq(shown(r, SRCML_COMMAND_UNITS), w), "the number of units is shown");
    } else if (c == 2) {
        bool all = sym_choice(2); S g = shown(r, all ? SRCML_COMMAND_LONGINFO : SRCML_COMMAND_INFO), w = NSX "\n"; if (ns) w += "xmlns:p=\"http://p\"\n";
        if (enc || g.find("encoding=") != S::npos) w += "encoding=\"" + E + "\"\n";
        if (!arch && us[0].lang) w += "language=\"" + lang(0) + "\"\n";
        if (url) w += "url=\"" + urlv + "\"\n";
        if (!arch && us[0].fn) w += "filename=\"" + us[0].name + "\"\n";
        if (all) { w += "units=\""; w += (char)('0' + us.size()); w += "\"\n"; }
        sym_note("---want\n%s", w.c_str()); CHECK(eq(g, w), "the information is that of the document");
    } else if (c == 3) {
        S g = squeeze(shown(r, SRCML_COMMAND_LIST)), w = "XML encoding: " + E + "\n"; int sum = 0;
        for (size_t i = 0; i < us.size(); ++i) { const U &u = us[i]; w += (char)('1' + i); w += ' '; if (u.lang) w += lang(i) + " "; w += (char)('0' + u.loc); w += ' '; if (u.hash) w += hashv(i) + " "; if (u.fn) w += u.name; w += "\n"; sum += u.loc; }
        w += "units: "; w += (char)('0' + us.size()); w += "\nLOC: "; w += (char)('0' + sum); w += "\n";
        w = squeeze(w); sym_note("---want\n%s", w.c_str()); CHECK(eq(g, w), "every unit is listed, and their sums");
    } else if (c == 4) {
        static const char *Q[] = {"http://www.srcML.org/srcML/src", "http://p", "http://q"}; int k = sym_choice(3); r.xmlns_prefix_query = S(Q[k]);
        S w = k == 0 ? "\n" : k == 1 && ns ? "p\n" : ""; CHECK(eq(shown(r, 0), w), "the prefix of the namespace is shown");
    } else if (c == 7) {
        static const char *H[] = {"", "%X", "%U,%V", "x%U"}, *B[] = {"%f", "%i:%l", "%N", "%N:p,%h"}, *F[] = {"", "%C", "%C %U", "%X%%"};
        int h = sym_choice(4), b = sym_choice(4), t = sym_choice(4), bare = sym_choice(2); S f = S(H[h]) + (h ? " { " : "{ ") + B[b] + " } " + F[t]; if (bare && !t) f.resize(f.size() - 1); r.pretty_format = f; sym_note("format %s", f.c_str());
        S g = shown(r, 0), w, X = E, Ve = version ? S("V") : !arch && us[0].ver ? ver(0) : S(), Ur = url ? urlv : S(), C; C += (char)('0' + us.size());
        if (h == 1) w += X; else if (h == 2) w += Ur + "," + Ve; else if (h == 3 && url) w += "x" + Ur;
        for (size_t i = 0; i < us.size(); ++i) { const U &u = us[i];
            if (b == 0) { if (u.fn) w += u.name; } else if (b == 1) { w += (char)('0' + i); w += ":"; if (u.lang) w += lang(i); } else if (b == 2) { w += "xmlns=http://www.srcML.org/srcML/src"; if (ns) w += " xmlns:p=http://p"; } else { if (ns) w += " p"; w += ","; if (u.hash) w += hashv(i); } }
        if (t == 1) w += C; else if (t == 2) w += C + " " + Ur; else if (t == 3) w += X + "%";
        sym_note("---want\n%s", w.c_str()); CHECK(eq(g, w), "the parts of a format are filled in before, for, and after the units");
    } else {
        static const char *D[] = {"%f", "%l", "%v", "%h", "%t", "%i", "%U", "%X", "%%", "x", "%N:p", "%N:u", "%V", "%s"}; S f; int n = 1 + sym_choice(2), d[3], args = 0; for (int i = 0; i < n; ++i) { d[i] = sym_choice(14); f += D[d[i]]; if (d[i] < 8 || d[i] > 9) ++args; }
        if (!args) sym_assume(0);
        S lit; lit += (char)sym_byte(); sym_assume(lit[0] > 32 && lit[0] < 127 && !(lit[0] == '%') && !(lit[0] == '{') && !(lit[0] == '}') && !(lit[0] == ':')); if (TIER < 2) sym_assume(lit[0] == 'a' || lit[0] == 's' || lit[0] == 'f' || lit[0] == '#'); f += lit; r.pretty_format = f; sym_note("format %s", f.c_str());
        S g = shown(r, 0), w;
        for (size_t i = 0; i < us.size(); ++i) {
            const U &u = us[i]; S one; bool none = true;
            for (int j = 0; j < n; ++j) switch (d[j]) {
            case 0: if (u.fn) { one += u.name; none = false; } break; case 1: if (u.lang) { one += lang(i); none = false; } break; case 2: if (u.ver) { one += ver(i); none = false; } break;
            case 3: if (u.hash) { one += hashv(i); none = false; } break; case 4: if (u.ts) { one += ts(i); none = false; } break; case 5: one += (char)('0' + i); none = false; break;
            case 6: if (url) { one += urlv; none = false; } break; case 7: one += E; none = false; break; case 8: one += "%"; break; case 9: one += "x"; break; case 12: if (version) { one += "V"; none = false; } else if (!arch && u.ver) { one += ver(i); none = false; } break; case 13: if (u.enc) { one += "E"; none = false; } break;
            case 10: if (ns) one += " p"; none = false; break; default: one += "http://www.srcML.org/srcML/src"; if (ns) one += " http://p"; none = false; }
            one += lit; if (none && args == 1) continue;               // a format with the only value missing is left out
            w += one;
        }
        sym_note("---want\n%s", w.c_str()); CHECK(eq(g, w), "the format is filled in with the values of each unit");
    }
    sym_reach("shown");
}
}
