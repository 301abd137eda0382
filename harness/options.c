/* Command-line options against a plain reference parser. Only the public API of nx_options.h is used. */
#include "vf.h"
#include "virg/nexus/nx_options.h"
#ifndef ARGS
#define ARGS 3
#endif
#ifndef NMAX
#define NMAX 6
#endif
static char A[ARGS + 2][8];
static char *argvv[ARGS + 2];
static int conc; /* numbers concrete */
static int word(int i, int w)
{
        if (w == 6 && conc) { strcpy(A[i], "-12"); return 1; }
        static const char *W[] = { "-n", "--num", "-x", "--str", "-v", "--verb" };
        if (w < 6) { strcpy(A[i], W[w]); return 1; }
        if (w == 6) { A[i][0] = '-'; A[i][1] = (char)('0' + vf_i("d", 1, 9)); A[i][2] = (char)('0' + vf_i("d", 0, 9)); A[i][3] = 0; return 1; }
        if (w == 7) { strcpy(A[i], "2.5"); return 1; }
        int l = vf_pick("l", 0, 2); vf_cstr("a", A[i], l); return 1;
}
static int eq(const char *a, const char *b) { return strcmp(a, b) == 0; }
static int isnum(const char *s) { int k = s[0] == '-'; if (!s[k]) return 0; for (; s[k]; ++k) if (s[k] < '0' || s[k] > '9') return 0; return 1; }
static int numval(const char *s) { int k = s[0] == '-', v = 0; for (; s[k]; ++k) v = v * 10 + (s[k] - '0'); return s[0] == '-' ? -v : v; }
struct rv { int n, nset, xset, sset, vset; double x; const char *s; int v; int rest[ARGS + 1], nr, miss; };
static void ref(struct rv *r, int argc, int dn, double dx, const char *ds, int dv)
{
        memset(r, 0, sizeof *r); r->n = dn; r->x = dx; r->s = ds; r->v = dv;
        for (int i = 1; i < argc; ++i) {
                char *a = argvv[i]; int t = eq(a, "-n") || eq(a, "--num") ? 1 : eq(a, "-x") ? 2 : eq(a, "--str") ? 3 : eq(a, "-v") || eq(a, "--verb") ? 4 : 0;
                if (t == 0) { r->rest[r->nr++] = i; continue; }
                if (t == 4) { r->v = 1; r->vset = 1; continue; }
                if (i == argc - 1) { r->miss = 1; return; }
                a = argvv[++i];
                if (t == 1) { VF_ASSUME(isnum(a)); r->n = numval(a); r->nset = 1; }
                else if (t == 2) { VF_ASSUME(eq(a, "2.5") || eq(a, "-n")); r->x = eq(a, "2.5") ? 2.5 : 0.0; r->xset = 1; }
                else { r->s = a; r->sset = 1; }
        }
}
static void compare(struct NXOptions *o, struct rv *r, int hasrest)
{
        VF_ASSERT(nx_options_get_int(o, "-n") == r->n && nx_options_get_int(o, "--num") == r->n, "integer value");
        VF_ASSERT(nx_options_get_double(o, "-x") == r->x, "real value");
        VF_ASSERT(strcmp(nx_options_get_string(o, "--str"), r->s) == 0, "text value");
        VF_ASSERT(!!nx_options_get_bool(o, "-v") == r->v && !!nx_options_get_bool(o, "--verb") == r->v, "switch value");
        VF_ASSERT(!!nx_options_is_set(o, "-n") == r->nset && !!nx_options_is_set(o, "--num") == r->nset, "integer given");
        VF_ASSERT(!!nx_options_is_set(o, "-x") == r->xset && !!nx_options_is_set(o, "--str") == r->sset && !!nx_options_is_set(o, "-v") == r->vset, "given flags");
        char **rest = nx_options_get_rest(o);
        if (!hasrest) VF_ASSERT(rest == NULL, "no rest declared");
        else if (r->nr == 0) VF_ASSERT(rest == NULL || rest[0] == NULL, "no remaining arguments");
        else {
                VF_ASSERT(rest != NULL, "remaining arguments kept");
                for (int i = 0; i < r->nr; ++i) { VF_ASSERT(rest[i] != NULL, "remaining argument present"); VF_ASSERT(strcmp(rest[i], argvv[r->rest[i]]) == 0, "remaining arguments in order"); }
                VF_ASSERT(rest[r->nr] == NULL, "list ends with NULL");
        }
}
void opt_parse(void)
{
        int hasrest = vf_pick("hr", 0, 2); /* none, optional, required */
        int dn = vf_int("dn"), dv = vf_pick("dv", 0, 1); double dx = 0.5; const char *ds = "df";
        struct NXOptions *o = nx_options_new("idsb", "-n|--num", "help n", dn, "-x", "help x", dx, "--str", "help s", ds, "-v|--verb", "help v", dv);
        if (hasrest == 1) nx_options_add(o, "r", "files"); else if (hasrest == 2) nx_options_add(o, "R", "files");
        VF_ASSERT(nx_options_get_int(o, "-n") == dn && !nx_options_is_set(o, "-n") && nx_options_get_double(o, "-x") == dx && eq(nx_options_get_string(o, "--str"), ds), "defaults before parsing");
        argvv[0] = "prog";
        int argc = 1 + vf_pick("argc", 0, ARGS);
        int fr = vf_pick("free", 0, ARGS); VF_ASSUME(fr < argc); /* at most one argument is arbitrary text */
        for (int i = 1; i < argc; ++i) { word(i, i == fr ? 8 : vf_pick("w", 0, 7)); argvv[i] = A[i]; }
        argvv[argc] = NULL;
        struct rv r; ref(&r, argc, dn, dx, ds, dv);
        int must = r.miss || (hasrest == 2 && r.nr == 0);
        if (must) { VF_FATAL_OK(); nx_options_set_from_args(o, argc, argvv); VF_ASSERT(0, "missing value or required argument refused"); }
        VF_FATAL_BAD();
        nx_options_set_from_args(o, argc, argvv);
        compare(o, &r, hasrest != 0);
        VF_COVER("parsed");
        nx_options_free(o);
}
/* parsing again forgets the first command line; arguments are copied */
void opt_again(void)
{
        int hasrest = vf_pick("hr", 0, 1); conc = 1;
        struct NXOptions *o = nx_options_new("idsb", "-n|--num", "help n", 3, "-x", "help x", 0.5, "--str", "help s", "df", "-v|--verb", "help v", 0);
        if (hasrest) nx_options_add(o, "r", "files");
        VF_FATAL_BAD();
        argvv[0] = "prog";
        for (int k = 0; k < 2; ++k) {
                int argc = 1 + vf_pick("argc", 0, 2);
                for (int i = 1; i < argc; ++i) { word(i, vf_pick("w", 0, 7)); argvv[i] = A[i]; }
                argvv[argc] = NULL;
                struct rv r; ref(&r, argc, 3, 0.5, "df", 0); VF_ASSUME(!r.miss);
                nx_options_set_from_args(o, argc, argvv);
                compare(o, &r, hasrest);
                char keep[8]; strcpy(keep, r.s); memset(A, 'z', sizeof A); VF_ASSERT(strcmp(nx_options_get_string(o, "--str"), keep) == 0, "text is a private copy");
               
        }
        VF_COVER("parsed twice");
        nx_options_free(o);
}
/* required options */
void opt_required(void)
{
        int q = vf_pick("q", 0, 15);
        char fmt[5] = { q & 1 ? 'I' : 'i', q & 2 ? 'D' : 'd', q & 4 ? 'S' : 's', q & 8 ? 'B' : 'b', 0 };
        struct NXOptions *o = nx_options_new(fmt, "-n|--num", "help n", 3, "-x", "help x", 0.5, "--str", "help s", "df", "-v|--verb", "help v", 0);
        int have = vf_pick("have", 0, 15), argc = 1; argvv[0] = "prog";
        char *av[10]; av[0] = "prog";
        if (have & 8) av[argc++] = "-v";
        if (have & 4) { av[argc++] = "--str"; av[argc++] = "t"; }
        if (have & 2) { av[argc++] = "-x"; av[argc++] = "2.5"; }
        if (have & 1) { av[argc++] = "--num"; av[argc++] = "9"; }
        av[argc] = NULL;
        if (q & ~have) { VF_FATAL_OK(); nx_options_set_from_args(o, argc, av); VF_ASSERT(0, "missing required option refused"); }
        VF_FATAL_BAD();
        nx_options_set_from_args(o, argc, av);
        VF_ASSERT(nx_options_get_int(o, "-n") == (have & 1 ? 9 : 3) && eq(nx_options_get_string(o, "--str"), have & 4 ? "t" : "df") && nx_options_get_double(o, "-x") == (have & 2 ? 2.5 : 0.5) && !!nx_options_get_bool(o, "-v") == !!(have & 8), "values");
        VF_COVER("required given");
        nx_options_free(o);
}
/* option names: "-c", "--long" or both joined by '|'; anything else and duplicates are refused; any legal name finds its option */
static int legal(const char *s, int *lng) { size_t l = strlen(s); if (l < 2 || s[0] != '-') return 0; if (l > 2 && s[1] != '-') return 0; *lng = l > 2; return 1; }
void opt_names(void)
{
        char nm[NMAX + 1]; int l = vf_pick("l", 0, NMAX); vf_cstr("nm", nm, l);
        char a[NMAX + 1], b[NMAX + 1]; int two = 0, k = 0;
        for (; k < l && nm[k] != '|'; ++k) a[k] = nm[k];
        a[k] = 0; b[0] = 0; if (k < l) { two = 1; int j = 0; for (++k; k < l; ++k) b[j++] = nm[k]; b[j] = 0; }
        int la = 0, lb = 0, ok = legal(a, &la) && (!two || legal(b, &lb));
        VF_ASSUME(!two || !ok || la != lb); /* two names of the same kind: unspecified */
        int dup = ok && (eq(a, "-n") || eq(a, "--num") || (two && (eq(b, "-n") || eq(b, "--num"))));
        struct NXOptions *o = nx_options_new("i", "-n|--num", "help n", 5);
        if (!ok || dup) { VF_FATAL_OK(); nx_options_add(o, "i", nm, "help", 7); VF_ASSERT(0, "illegal or duplicate name refused"); }
        VF_FATAL_BAD();
        nx_options_add(o, "i", nm, "help", 7);
        VF_ASSERT(nx_options_get_int(o, a) == 7 && nx_options_get_int(o, "-n") == 5 && nx_options_get_int(o, "--num") == 5, "found under its name");
        if (two) VF_ASSERT(nx_options_get_int(o, b) == 7, "found under its second name");
        char *av[4] = { "prog", two && vf_pick("which", 0, 1) ? b : a, "42", NULL };
        nx_options_set_from_args(o, 3, av);
        VF_ASSERT(nx_options_get_int(o, a) == 42 && nx_options_is_set(o, a) && nx_options_get_int(o, "-n") == 5, "set under its name");
        VF_COVER("named");
        nx_options_free(o);
}
/* asking for an unknown option or for another type is refused */
void opt_query(void)
{
        struct NXOptions *o = nx_options_new("idsb", "-n|--num", "help n", 3, "-x", "help x", 0.5, "--str", "help s", "df", "-v|--verb", "help v", 1);
        static const char *N[] = { "-n", "--num", "-x", "--str", "-v", "--verb", "-h", "--", "n", "--nu" };
        static const int T[] = { 0, 0, 1, 2, 3, 3, 9, 9, 9, 9 };
        int i = vf_pick("i", 0, 9), t = vf_pick("t", 0, 4); const char *nm = N[i];
        if (t < 4 ? T[i] != t : T[i] == 9) VF_FATAL_OK(); else VF_FATAL_BAD();
        int bad = t < 4 ? T[i] != t : T[i] == 9;
        switch (t) {
        case 0: VF_ASSERT(nx_options_get_int(o, nm) == 3 && !bad, "integer"); break;
        case 1: VF_ASSERT(nx_options_get_double(o, nm) == 0.5 && !bad, "real"); break;
        case 2: VF_ASSERT(eq(nx_options_get_string(o, nm), "df") && !bad, "text"); break;
        case 3: VF_ASSERT(nx_options_get_bool(o, nm) && !bad, "switch"); break;
        default: VF_ASSERT(!nx_options_is_set(o, nm) && !bad, "given");
        }
        VF_COVER("query");
        nx_options_free(o);
}
/* many long names (shared buckets): every option keeps its own value */
void opt_many(void)
{
        char nm[MANY][24]; struct NXOptions *o = nx_options_alloc();
        VF_FATAL_BAD();
        for (int i = 0; i < MANY; ++i) { strcpy(nm[i], "--a-long-option-name-00"); nm[i][21] = (char)('0' + i / 8); nm[i][22] = (char)('0' + i % 8); nx_options_add(o, i & 1 ? "i" : "I", nm[i], "h", i); }
        char *av[2 * MANY + 2]; int argc = 1; av[0] = "prog"; char val[2]; val[0] = (char)('0' + vf_i("v", 0, 9)); val[1] = 0;
        int w = vf_pick("w", 0, MANY - 1) | 1;
        for (int i = 0; i < MANY; ++i) if (!(i & 1) || i == w) { av[argc++] = nm[i]; av[argc++] = i == w ? val : "3"; }
        av[argc] = NULL;
        nx_options_set_from_args(o, argc, av);
        for (int i = 0; i < MANY; ++i) { VF_ASSERT(nx_options_get_int(o, nm[i]) == (i == w ? val[0] - '0' : i & 1 ? i : 3), "own value"); VF_ASSERT(!!nx_options_is_set(o, nm[i]) == (!(i & 1) || i == w), "own flag"); }
        VF_COVER("many");
        nx_options_free(o);
}
/* printing shows every option with its current value */
void opt_print(void)
{
        struct NXOptions *o = nx_options_new("ibs", "-n|--num", "help n", 3, "-v", "help v", 0, "--str", "help s", "df");
        int hr = vf_pick("hr", 0, 1); if (hr) nx_options_add(o, "r", "files");
        VF_FATAL_BAD();
        char num[3] = { (char)('0' + vf_i("d", 1, 9)), (char)('0' + vf_i("d", 0, 9)), 0 }; char st[2] = { (char)vf_u8("c"), 0 }; VF_ASSUME(st[0]);
        char *av[8] = { "prog", "-n", num, "--str", st, NULL }; int argc = 5; if (vf_pick("v", 0, 1)) av[argc++] = "-v";
        int k = hr ? vf_pick("k", 0, 1) : 0; if (k) av[argc++] = "f1"; av[argc] = NULL;
        nx_options_set_from_args(o, argc, av);
        FILE *f = vf_stream_out();
        nx_options_print_values(o, f);
        char e[160]; int n = 0;
        n += sprintf(e, "--num, -n: %c%c\n", num[0], num[1]); n += sprintf(e + n, "       -v: %s\n", nx_options_get_bool(o, "-v") ? "true" : "false"); n += sprintf(e + n, "    --str: '"); e[n++] = st[0]; n += sprintf(e + n, "'\n");
        if (hr) n += sprintf(e + n, "    files: [%s]\n", k ? "'f1'" : "");
        VF_ASSERT((int)vf_stream_out_len(f) == n, "printed length");
        for (int i = 0; i < n; ++i) VF_ASSERT(((const char *)vf_stream_out_data(f))[i] == e[i], "printed values");
        nx_options_print_usage(o, f);
        VF_COVER("printed");
        fclose(f); nx_options_free(o);
}
