// C26: every command line either runs the deck it names or is refused with a status
#include "runspy.h"
#include <cstring>
int qed_main(int, char **);
static const char *const RUN = "[General]\nunits = SI\ntime_step = 1e-16\ntime_end = 5e-17\n[Field]\nfield_type = static\n"
    "[Physics]\nradiation_model = quantum\n[Particle1]\nparticle_type = electron\nenergy_mean = 1e-13\n";
static void fresh()
{
    recs.clear(); first.clear(); events = cur = nseen = 0; act_what = act_proc = act_event = act2 = 0; act_step = 1;
    uniform_ = 0.25; normal_ = 0; steps = 1; ts = 1e-16; pusher = LORENTZ; nproc = 1; proc[0] = STOCHASTIC;
}
// an argument of n arbitrary bytes
static void any(char *s, int n)
{
    for (int i = 0; i < n; i++) { unsigned char c = vf_byte("c"); vf_assume(c != 0); s[i] = c; }
    s[n] = 0;
}
static int go(int argc, char **av)
{
    vf_exit_ok(2);      // a refusal may exit, with a status
    int r = qed_main(argc, av);
    finish();
    return r;
}
extern "C" {
// any single argument
void q_one()
{
    fresh();
    char a0[] = "QEDCASC", a1[16] = {}, *av[] = {a0, a1, NULL};
    int n = vf_choice("length", vf_tier() ? 9 : 7);
    any(a1, n);
    vf_file("a.ini", RUN); vf_file("a.inj", RUN); vf_file(".ini", RUN);
    vf_reach("one");
    int r = go(2, av);
    bool deck = n >= 4 && !strcmp(a1 + n - 4, ".ini");
    if (r == 0) {
        vf_assert(deck, "only an argument ending in .ini starts a run");
        vf_assert(!strcmp(a1, "a.ini") || !strcmp(a1, ".ini"), "only a deck that exists is run");
        vf_assert(events == 1, "the named deck is run");
    } else {
        vf_assert(events == 0, "a refused command line runs nothing");
        vf_assert(strcmp(a1, "a.ini") != 0, "a deck that exists is run");
    }
}
// an argument of any longer name before or after the ending
void q_long()
{
    fresh();
    static const int L[] = {0, 1, 2, 3, 4, 7, 15, 16, 40};
    static const char *END[] = {".ini", ".INI", ".ini ", ".inix", "ini", ".ini.txt", "", "-h"};
    char a0[] = "QEDCASC", a1[128] = {}, *av[] = {a0, a1, NULL};
    int n = L[vf_choice("length", vf_tier() ? 9 : 6)], e = vf_choice("end", 8), b = vf_choice("middle", 2);
    for (int i = 0; i < n; i++) a1[i] = 'd';
    strcpy(a1 + n, END[e]);
    if (b && n) { unsigned char c = vf_byte("c"); vf_assume(c != 0 && c != '/'); a1[n / 2] = c; }
    vf_file("d.ini", RUN); vf_file("ddd.ini", RUN); vf_file("ddddddddddddddd.ini", RUN); vf_file("d.INI", RUN); vf_file("d.inix", RUN);
    vf_reach("long");
    int r = go(2, av);
    bool there = (!strcmp(a1, "d.ini") || !strcmp(a1, "ddd.ini") || !strcmp(a1, "ddddddddddddddd.ini"));
    vf_assert((r == 0) == there, "a deck is run if it is named and there");
    vf_assert(events == (there ? 1 : 0), "a refused command line runs nothing");
}
// any number of arguments
void q_count()
{
    fresh();
    static const char *A[] = {"a.ini", "-h", "", "x"};
    int n = vf_choice("arguments", 5);
    char buf[5][16] = {}, *av[6];
    strcpy(buf[0], "QEDCASC");
    for (int i = 0; i <= n; i++) {
        if (i) {
            int k = vf_choice("argument", 5);
            if (k == 4) any(buf[i], 2); else strcpy(buf[i], A[k]);
        }
        av[i] = buf[i];
    }
    av[n + 1] = NULL;
    vf_file("a.ini", RUN);
    vf_reach("count");
    int r = go(n + 1, av);
    bool run = n == 1 && !strcmp(buf[1], "a.ini");
    vf_assert((r == 0) == run, "only a single argument ending in .ini starts a run");
    vf_assert(events == (run ? 1 : 0), "a refused command line runs nothing");
}
// decks that cannot be run
void q_deck()
{
    fresh();
    char a0[] = "QEDCASC", a1[] = "b.ini", *av[] = {a0, a1, NULL};
    int what = vf_choice("what", 9);
    std::string d = what == 0 ? "" : what == 1 ? "[Generals]\n" : "[General]\n";
    d += "time_end = 5e-17\n";
    if (what != 2) d += "time_step = 1e-16\n";
    if (what != 3) d += "units = SI\n";
    if (what != 4) d += "[Field]\n";
    if (what != 5) { d += "field_type = "; d += what == 6 ? "round\n" : "static\n"; }
    if (what != 7) d += "[Physics]\nradiation_model = quantum\n";
    char m[24];
    if (what == 8) {        // any name but the known ones
        int n = vf_choice("length", 4);
        any(m, n);
        for (int i = 0; i < n; i++) vf_assume(m[i] > ' ' && m[i] != ';' && m[i] != '#' && m[i] != '=' && m[i] != ':');
        d += "radiation_model = "; d += m; d += "\n";
    }
    d += "[Particle1]\nparticle_type = electron\nenergy_mean = 1e-13\n";
    vf_reach("deck");
    if (what) vf_file("b.ini", d.c_str());
    int r = go(2, av);
    vf_assert(r != 0, "a deck that cannot be run is refused");
    vf_assert(events == 0, "a refused deck runs nothing");
}
}
