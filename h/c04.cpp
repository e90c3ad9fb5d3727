// C04: typed getters of the configuration reader
#include "vf.h"
#include <cstring>
#include <cstdio>
#include <string>
#include "INIReader.hh"

static char text[4096];
static int len;
static void lit(const char *s) { for (; *s; s++) text[len++] = *s; }
static void put(unsigned char b) { text[len++] = (char)b; }
static void start(const char *s = "[s]\nk=") { len = 0; lit(s); }
static void finish() { lit("\n"); text[len] = 0; vf_file("c04.ini", text); }
static unsigned char letter(char c, const char *n = "l") {          // either case of a letter
    unsigned char b = vf_byte(n);
    vf_assume((b == (unsigned char)c) | (b == (unsigned char)(c - 32)));
    return b;
}
static void word(const char *w) {
    for (; *w; w++) if (*w >= 'a' && *w <= 'z') put(letter(*w)); else put(*w);
}

static const char *TRUE[] = {"true", "yes", "on", "1"}, *FALSE[] = {"false", "no", "off", "0"};

extern "C" {
// every spelling of the boolean words
void q_bool_words() {
    int w = vf_choice("word", 8);
    start(); lit(" "); word(w < 4 ? TRUE[w] : FALSE[w - 4]); finish();
    INIReader r("c04.ini");
    bool d = vf_choice("default", 2);
    vf_assert(r.GetBoolean("s", "k", d) == (w < 4), "boolean word");
    vf_reach("word");
}
// every other word gives the default
void q_bool_other() {
    int n = vf_choice("n", vf_tier() ? 4 : 3);
    unsigned char b[4];
    start();
    for (int i = 0; i < n; i++) {
        b[i] = vf_byte("b");
        vf_assume((b[i] > ' ') & (b[i] < 127) & (b[i] != ';'));
        put(b[i]);
    }
    finish();
    int v = -1;
    for (int w = 0; w < 8; w++) {
        const char *s = w < 4 ? TRUE[w] : FALSE[w - 4];
        if ((int)strlen(s) != n) continue;
        bool m = true;
        for (int i = 0; i < n && m; i++) {
            unsigned char c = b[i];
            if (c >= 'A' && c <= 'Z') c += 32;
            if (c != (unsigned char)s[i]) m = false;
        }
        if (m) v = w < 4;
    }
    INIReader r("c04.ini");
    vf_assert(r.GetBoolean("s", "k", true) == (v != 0), "boolean, default true");
    vf_assert(r.GetBoolean("s", "k", false) == (v == 1), "boolean, default false");
    vf_reach(v < 0 ? "default" : "word");
}
// keys and sections in any case; only that key and section
void q_key_case() {
    double v = vf_real("v"), d = vf_real("d");
    len = 0;
    lit("["); put(letter('s')); put(letter('e')); lit("]\n"); put(letter('k')); put(letter('y')); lit(" = "); lit(vf_num(v)); finish();
    char sec[3] = {(char)letter('s', "q"), (char)letter('e', "q"), 0}, key[3] = {(char)letter('k', "q"), (char)letter('y', "q"), 0};
    INIReader r("c04.ini");
    vf_eq(r.GetReal(sec, key, d), v, "any case");
    vf_assert(r.HasValue(sec, key), "has value");
    vf_reach("found");
}
void q_key_other() {
    double v = vf_real("v"), d = vf_real("d");
    len = 0;
    lit("[se]\nky = "); lit(vf_num(v)); finish();
    char sec[3] = {'s', 'e', 0}, key[3] = {'k', 'y', 0};
    int where = vf_choice("where", 4);
    unsigned char b = vf_byte("b");
    vf_assume((b >= ' ') & (b < 127));
    char *t = where < 2 ? sec : key;
    unsigned char o = (unsigned char)t[where & 1];
    t[where & 1] = (char)b;
    INIReader r("c04.ini");
    bool same = (b == o) | (b == (unsigned char)(o - 32));
    vf_assert(r.HasValue(sec, key) == same, "only this key");
    vf_eq(r.GetReal(sec, key, d), same ? v : d, "value or default");
    vf_reach(same ? "same" : "other");
}
// reals: any value, sign and surrounding blanks
void q_real() {
    double v = vf_nonneg("v"), d = vf_real("d");
    int sign = vf_choice("sign", 3), tail = vf_choice("tail", 4);
    start();
    lit(vf_choice("space", 2) ? "  " : "");
    lit(sign == 1 ? "-" : sign == 2 ? "+" : "");
    lit(vf_num(v));
    lit(tail == 1 ? "  " : tail == 2 ? " ; comment" : tail == 3 ? "\t" : "");
    finish();
    INIReader r("c04.ini");
    vf_eq(r.GetReal("s", "k", d), sign == 1 ? -v : v, "real");
    vf_eq(r.GetReal("s", "other", d), d, "missing real");
    vf_eq(r.GetReal("t", "k", d), d, "missing section");
    vf_reach("real");
}
static const struct { const char *t; double v; } REALS[] = {
    {"1e3", 1e3}, {"1E3", 1e3}, {"2.5e+2", 250}, {"2.5E-2", 0.025}, {".5", 0.5}, {"5.", 5}, {"-1.5e-3", -0.0015}, {"+7E+1", 70},
    {"007", 7}, {"0.0", 0}, {"-0", 0}, {"1e-16", 1e-16}, {"123456789", 123456789}, {"3.0e8", 3e8}};
void q_real_notation() {
    int i = vf_choice("i", sizeof REALS / sizeof *REALS);
    double d = vf_real("d");
    start(); lit(REALS[i].t); finish();
    INIReader r("c04.ini");
    vf_eqs(r.GetReal("s", "k", d), REALS[i].v, 1e-30, "notation");
    vf_reach("notation");
}
// a value that is no number: exactly the default, for every getter
void q_unreadable() {
    static const char *T[] = {"", "   ", "abc", "-", "+", "; only a comment", "x1", "[", ",", "..", "[ , , ]", "none"};
    int i = vf_choice("i", 12);
    double d = vf_real("d"), a = vf_real("a"), b = vf_real("b"), c = vf_real("c");
    int k = vf_choice("int", 3);
    long n = k == 0 ? 0 : k == 1 ? -7 : 123456789012L;
    start(); lit(" "); lit(T[i]); finish();
    INIReader r("c04.ini");
    vf_eq(r.GetReal("s", "k", d), d, "real default");
    vf_assert(r.GetInteger("s", "k", n) == n, "integer default");
    ThreeVector v = r.GetThreeVector("s", "k", ThreeVector(a, b, c)), w = r.GetThreeVector("s", "other", ThreeVector(a, b, c));
    if (i != 6) { vf_eq(v[0], a, "vector default"); vf_eq(v[1], b, "vector default"); vf_eq(v[2], c, "vector default"); }
    vf_eq(w[0], a, "missing vector"); vf_eq(w[1], b, "missing vector"); vf_eq(w[2], c, "missing vector");
    vf_assert(r.GetString("s", "other", "dflt") == "dflt", "missing string");
    vf_assert(r.Get("s", "other", "dflt") == "dflt", "missing text");
    vf_assert(r.GetInteger("s", "other", n) == n, "missing integer");
    vf_assert(r.GetBoolean("s", "k", true) && !r.GetBoolean("s", "k", false), "boolean default");
    if (i < 2) vf_assert(r.GetString("s", "k", "dflt") == "dflt", "empty string");
    vf_reach("default");
}
// integers: decimal and hexadecimal, every digit
void q_decimal() {
    int n = 1 + vf_choice("n", vf_tier() ? 4 : 3), sign = vf_choice("sign", 3);
    start();
    lit(sign == 1 ? "-" : sign == 2 ? "+" : "");
    long v = 0;
    for (int i = 0; i < n; i++) {
        unsigned char b = vf_byte("digit");
        vf_assume((b >= '0') & (b <= '9') & ((i > 0) | (n == 1) | (b != '0')));
        put(b);
        v = v * 10 + (b - '0');
    }
    if (sign == 1) v = -v;
    finish();
    INIReader r("c04.ini");
    vf_assert(r.GetInteger("s", "k", 99999) == v, "decimal");
    vf_reach("decimal");
}
void q_hex() {
    int n = 1 + vf_choice("n", 2);
    start();
    lit(vf_choice("x", 2) ? "0x" : "0X");
    long v = 0;
    for (int i = 0; i < n; i++) {
        unsigned char b = vf_byte("digit");
        vf_assume(((b >= '0') & (b <= '9')) | ((b >= 'a') & (b <= 'f')) | ((b >= 'A') & (b <= 'F')));
        put(b);
        v = v * 16 + (b <= '9' ? b - '0' : b <= 'F' ? b - 'A' + 10 : b - 'a' + 10);
    }
    finish();
    INIReader r("c04.ini");
    vf_assert(r.GetInteger("s", "k", 99999) == v, "hex");
    vf_reach("hex");
}
void q_large() {
    static const struct { const char *t; long v; } L[] = {{"2147483648", 2147483648L}, {"-2147483649", -2147483649L}, {"9007199254740993", 9007199254740993L},
        {"9223372036854775807", 9223372036854775807L}, {"0x7fffffffffffffff", 9223372036854775807L}};
    int i = vf_choice("i", 5);
    start(); lit(L[i].t); finish();
    INIReader r("c04.ini");
    vf_assert(r.GetInteger("s", "k", 1) == L[i].v, "large");
    vf_reach("large");
}
// vectors: separators, brackets, signs
void q_vector() {
    double v[3], d = vf_real("d");
    int style = vf_choice("style", 7);
    static const char *O[] = {"", "[", "(", "[ ", "", "", "["}, *S[] = {" ", ",", ", ", " , ", "\t", ",", "   "}, *C[] = {"", "]", ")", " ]", " ", "", "]"};
    int sg[3];
    start();
    lit(O[style]);
    for (int i = 0; i < 3; i++) {
        v[i] = vf_nonneg("v");
        sg[i] = vf_choice("sign", 3);
        if (i) lit(S[style]);
        lit(sg[i] == 1 ? "-" : sg[i] == 2 ? "+" : "");
        lit(vf_num(v[i]));
        if (sg[i] == 1) v[i] = -v[i];
    }
    lit(C[style]);
    finish();
    INIReader r("c04.ini");
    ThreeVector w = r.GetThreeVector("s", "k", ThreeVector(d, d, d));
    for (int i = 0; i < 3; i++) vf_eq(w[i], v[i], "component");
    vf_reach("vector");
}
void q_vector_notation() {
    double d = vf_real("d");
    int i = vf_choice("i", sizeof REALS / sizeof *REALS), j = vf_choice("j", sizeof REALS / sizeof *REALS), at = vf_choice("at", 3), comma = vf_choice("comma", 2);
    start();
    for (int k = 0; k < 3; k++) { if (k) lit(comma ? "," : " "); lit(REALS[k == at ? i : j].t); }
    finish();
    INIReader r("c04.ini");
    ThreeVector w = r.GetThreeVector("s", "k", ThreeVector(d, d, d));
    for (int k = 0; k < 3; k++) vf_eqs(w[k], REALS[k == at ? i : j].v, 1e-30, "notation");
    vf_reach("vector");
}
// values over several lines
void q_vector_lines() {
    double v[3], d = vf_real("d");
    int cut = vf_choice("cut", 3);
    start();
    for (int i = 0; i < 3; i++) {
        v[i] = vf_real("v");
        if (i) lit(i == cut ? ",\n   " : ", ");
        lit(vf_num(v[i]));
    }
    finish();
    INIReader r("c04.ini");
    ThreeVector w = r.GetThreeVector("s", "k", ThreeVector(d, d, d));
    for (int i = 0; i < 3; i++) vf_eq(w[i], v[i], "component");
    vf_reach("vector");
}
void q_vector_long() {
    int n = 4 + vf_choice("n", 2), comma = vf_choice("comma", 2);
    start();
    for (int i = 0; i < n; i++) { double v = vf_real("v"); if (i) lit(comma ? "," : " "); lit(vf_num(v)); }
    finish();
    INIReader r("c04.ini");
    vf_exit_ok(1); vf_throw_ok(1);
    vf_reach("long");
    r.GetThreeVector("s", "k", ThreeVector(0, 0, 0));
    vf_assert(0, "vector with more than three components accepted");
}
// strings, and a second key of the same name in another section
void q_string() {
    unsigned char b = vf_byte("b"), c = vf_byte("c");
    vf_assume((b > ' ') & (b < 127) & (b != ';'));
    vf_assume((c > ' ') & (c < 127) & (c != ';'));
    start(); put(b); lit(" x"); put(c); lit("\n[t]\nk = other"); finish();
    INIReader r("c04.ini");
    char want[5] = {(char)b, ' ', 'x', (char)c, 0};
    std::string g = r.GetString("s", "k", "dflt"), h = r.Get("s", "k", "dflt");
    vf_assert(g.size() == 4 && h.size() == 4, "length");
    for (int i = 0; i < 4; i++) { vf_assert(g[i] == want[i], "string"); vf_assert(h[i] == want[i], "text"); }
    vf_assert(r.GetString("t", "k", "dflt") == "other", "other section");
    vf_reach("string");
}
// sections: each listed once, in file order
void q_sections() {
    static const char *N[] = {"a", "bb", "General"};
    int n = vf_choice("n", vf_tier() ? 5 : 4), at[5], order[3], m = 0;
    len = 0;
    for (int i = 0; i < n; i++) {
        at[i] = vf_choice("s", 3);
        lit("["); lit(N[at[i]]); lit("]\nk"); put('0' + i); lit("=1\n");
        bool seen = false;
        for (int j = 0; j < m; j++) seen = seen || order[j] == at[i];
        if (!seen) order[m++] = at[i];
    }
    finish();
    INIReader r("c04.ini");
    std::vector<std::string> s = r.GetSections();
    vf_assert((int)s.size() == m, "number of sections");
    for (int i = 0; i < m; i++) vf_assert(s[i] == N[order[i]], "section");
    vf_assert(r.ParseError() == 0, "no error");
    vf_reach("sections");
}
void q_missing_file() {
    vf_exit_ok(1); vf_throw_ok(1);
    vf_reach("missing");
    INIReader r("c04-missing.ini");
    vf_assert(r.ParseError() != 0, "missing file goes unnoticed");
}
// another reader before, with the same or other names; and names asked in any order: answers do not depend on it
void q_again() {
    int kept = vf_choice("kept", 2), first = vf_choice("asked first", 4), has = vf_choice("has", 2);
    double a = vf_real("a"), b = vf_real("b"), c = vf_real("c"), d = vf_real("default");
    start("[s]\nk="); lit(vf_num(a)); lit("\nf=true\nv=1 2 3\n[u]\nk=text"); finish();
    INIReader *o = new INIReader("c04.ini");
    vf_eq(o->GetReal("s", "k", d), a, "value of the first reader");
    vf_assert(o->GetBoolean("s", "f", false), "value of the first reader");
    if (!kept) delete o;
    start("[s]\nj="); lit(vf_num(c)); if (has) { lit("\nk="); lit(vf_num(b)); } lit("\n[t]\nk="); lit(vf_num(c)); finish();
    INIReader r("c04.ini");
    if (first == 1) r.GetReal("t", "k", 0);
    if (first == 2) r.GetReal("s", "j", 0);
    if (first == 3) r.GetReal("s", "k", 1 + d);
    vf_eq(r.GetReal("s", "k", d), has ? b : d, "value of this reader, or the default of this question");
    vf_eq(r.GetReal("t", "k", d), c, "value of this section");
    vf_eq(r.GetReal("s", "j", d), c, "value of this name");
    vf_assert(!r.GetBoolean("s", "f", false), "nothing of another reader is left");
    vf_assert(r.Get("u", "k", "none") == "none", "nothing of another reader is left");
    vf_assert(r.GetSections().size() == 2, "sections of this reader only");
    if (kept) {
        vf_eq(o->GetReal("s", "k", d), a, "a later reader leaves an earlier one as it was");
        vf_assert(o->Get("u", "k", "none") == "text", "a later reader leaves an earlier one as it was");
        delete o;
    }
    vf_reach("again");
}
// as many sections and keys as decks have
void q_many() {
    int n = vf_choice("n", 2) ? 40 : 12, part = vf_choice("part", 3), has = vf_choice("has", 2), i0 = part == 0 ? 0 : part == 1 ? n / 2 : n - 1;
    double v = vf_real("v"), d = vf_real("default");
    len = 0;
    for (int i = 0; i < n; i++) {
        lit("[Part"); lit(std::to_string(i).c_str()); lit("]\nFlag=true\nkey"); lit(std::to_string(i).c_str()); lit(" = "); lit(std::to_string(i + 1).c_str());
        if (i != i0) { lit("\nvalue = "); lit(std::to_string(2 * i).c_str()); } else if (has) { lit("\nvalue = "); lit(vf_num(v)); }
        lit("\nv = 1 2\n  "); lit(std::to_string(i).c_str()); lit("\n");
    }
    finish();
    INIReader r("c04.ini");
    vf_assert(r.ParseError() == 0, "no error");
    std::vector<std::string> s = r.GetSections();
    vf_assert((int)s.size() == n, "number of sections");
    for (int i = 0; i < n; i++) {
        std::string q = "Part" + std::to_string(i);
        vf_assert(s[i] == q, "sections in the order of the file");
        vf_assert(r.GetInteger(q, "KEY" + std::to_string(i), 0) == i + 1, "every key of its section");
        vf_assert(r.GetInteger(q, "key" + std::to_string(i + 1), -7) == -7, "no key of another section");
        vf_assert(r.GetBoolean(q, "flag", false), "every key of its section");
        ThreeVector w = r.GetThreeVector(q, "v", ThreeVector(7, 7, 7));
        vf_eq(w[0], 1, "a value over two lines"); vf_eq(w[1], 2, "a value over two lines"); vf_eq(w[2], i, "a value over two lines");
        if (i != i0) vf_eq(r.GetReal(q, "value", d), 2 * i, "every key of its section");
    }
    vf_eq(r.GetReal("Part" + std::to_string(i0), "value", d), has ? v : d, "value of this section, or the default");
    vf_reach("many");
}
}
