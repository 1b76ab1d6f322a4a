/* LD_PRELOAD seam over the C library's random generator.
 *
 * rand/srand/random/srandom are served from numbered virtual streams ("slots",
 * one per simulated caller), each bit-compatible with glibc's.  The simulator
 * selects the slot whenever it switches callers, can make chosen draws return
 * an extreme value, and can count draws.  Without any simulator call this
 * behaves exactly like glibc. */
#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>

#define SLOTS 16
#define INJ 64
static struct random_data rd[SLOTS];
static char st[SLOTS][128];
static int ready[SLOTS];
static int slot;
static unsigned long calls, nsrand;
static unsigned long inj_at[INJ];
static long inj_val[INJ];
static int ninj;
static unsigned long ninjected;

static void init(int s, unsigned seed) {
    memset(&rd[s], 0, sizeof rd[s]);
    memset(st[s], 0, sizeof st[s]);
    initstate_r(seed, st[s], sizeof st[s], &rd[s]);
    ready[s] = 1;
}
long random(void) {
    int r;
    if (!ready[slot]) init(slot, 1);
    random_r(&rd[slot], &r);
    calls++;
    for (int i = 0; i < ninj; i++)
        if (inj_at[i] == calls) { ninjected++; return inj_val[i]; }
    return r;
}
int rand(void) { return (int) random(); }
void srandom(unsigned s) { nsrand++; init(slot, s); }
void srand(unsigned s) { srandom(s); }

/* simulator side */
void sim_slot(int s) { slot = s; }
void sim_seed(unsigned s) { init(slot, s); }
void sim_reset(void) { calls = 0; nsrand = 0; ninj = 0; ninjected = 0; }
void sim_inject(unsigned long at, long v) { if (ninj < INJ) { inj_at[ninj] = at; inj_val[ninj] = v; ninj++; } }
unsigned long sim_calls(void) { return calls; }
unsigned long sim_srands(void) { return nsrand; }
unsigned long sim_injected(void) { return ninjected; }
