// Source text through the parser.  PROP 1: text round trip; 2: well-formedness and text fidelity of the document;
// 3: every truncation of the texts, in every language and with other options.
#include "h.hpp"
#include "snippets.hpp"
#ifndef PROP
#define PROP 1
#endif
#ifndef TIER
#define TIER 1
#endif
#ifndef NB
#define NB 1
#endif
extern "C" {
const char *sym_config_name(int c) { return c < NSNIP ? SNIP[c].name : 0; }
void sym_setup(void) {}
void sym_harness(int c) {
    const Snip &s = SNIP[c];
    S src = s.text;
    POpt o; o.lang = s.lang; o.opts = s.opts;
#if PROP == 3
    static const char *LANG[] = {"C", "C++", "C#", "Java", "Objective-C"};
    static const size_t OPTS[] = {0, SRCML_OPTION_POSITION, SRCML_OPTION_CPP_TEXT_ELSE, SRCML_OPTION_CPP_MARKUP_IF0, SRCML_OPTION_POSITION | SRCML_OPTION_CPP_MARKUP_IF0 | SRCML_OPTION_CPP_TEXT_ELSE};
    int pos = sym_choice((int)src.size() + 1), l = sym_choice(5);
    sym_assume(TIER > 1 || (pos + l * 2) % 10 == c % 10);
    char b[4]; sym_make(b, NB); for (int i = 0; i < NB; ++i) sym_assume((b[i] & 0x80) == 0);
    src.erase(pos); src.append(b, NB);
    o.lang = LANG[l]; o.opts = OPTS[(pos / 5 + l) % 5];
#else
    editText(src, c, NB, TIER, PROP - 1);
#endif
    Parsed r = parseDoc(src.data(), src.size(), o);
    CHECK(r.rc_parse == 0 && r.rc_write == 0, "every text parses");
    sym_out(r.doc.data(), r.doc.size());
    sym_note("%s", r.doc.c_str());
    S want = normEol(src);
    if (PROP == 1) {
        int rc; S back = unparseDoc(r.doc, 0, &rc);
        CHECK(rc == 0, "the written document is read back");
        CHECK(back.size() == want.size() && !memcmp(back.data(), want.data(), want.size()), "the source text comes back unchanged");
    }
    if (PROP != 1) {
        Xml x;
        bool ok = x.parse(r.doc.data(), r.doc.size());
        if (!ok) sym_note("not well-formed: %s at %zu", x.why, x.pos);
        CHECK(ok, "the document is well-formed XML");
        CHECK(x.el.size() >= 2 && Xml::local(x.el[1].name) == "unit", "one unit in the archive");
        S t = x.txt(1);
        CHECK(t.size() == want.size() && !memcmp(t.data(), want.data(), want.size()), "the text of the unit is the source text");
    }
    sym_reach("parsed and checked");
}
}
