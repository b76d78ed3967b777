/* What looks inside the interpreter: the memory monitor, and workloads in C. */
#include "sim.h"
#include <string.h>
#include <stdlib.h>
#include "potion.h"
#include "internal.h"
#include "khash.h"
#include "table.h"
u64 sim_mapped_data(void);
int sim_mapped(u64 a, u64 n);
/* The collector's own figures against the ledger of pages the simulator handed out. Called
   where a collection may strike, never inside one. */
void sim_memmon(Potion *P, int exact) {
  static int lastmaj = 0; static u64 calls = 0;
  struct PNMemory *M = P->mem;
  if (M->collecting) return;
  /* the table of strings: its capacity follows how many strings there were between two collections */
  struct PNTable *st = (struct PNTable *)potion_fwd((PN)P->strings); static u64 strmax = 0;
  if (st->size > strmax) strmax = st->size;
  if (st->n_buckets > 5 * strmax + 64) sim_violation("grows: the table of strings has %u slots, it never held more than %llu", st->n_buckets, (unsigned long long)strmax);
  if (M->majors != lastmaj) {
    lastmaj = M->majors;
    u64 live = (char *)M->old_cur - (char *)M->old_lo - potion_type_size(P, (struct PNObject *)st);
    if (R->nlive == MAXLIVE) { for (u64 i = 0; i < MAXLIVE / 2; i++) R->live[i] = R->live[2 * i]; R->nlive /= 2; R->live_every *= 2; }
    if (R->live_n++ % (R->live_every ? R->live_every : (R->live_every = 1)) == 0) R->live[R->nlive++] = live;
  } else if (calls++ % 8) return;
  u64 mp = sim_mapped_data();
  i64 fixed = PN_INT(potion_gc_fixed(P, 0, 0)), actual = PN_INT(potion_gc_actual(P, 0, 0)), reserved = PN_INT(potion_gc_reserved(P, 0, 0));
  R->memchecks++;
  if (reserved > (i64)R->reserved_peak) R->reserved_peak = reserved;
  if (!(fixed > 0 && fixed <= actual && actual <= reserved)) sim_violation("figures: fixed %lld actual %lld reserved %lld", (long long)fixed, (long long)actual, (long long)reserved);
  i64 want = M->birth_lo == (void *)M ? reserved : reserved - fixed + (fixed + 4095 & ~4095ll);
  if (exact && (i64)mp != want) sim_violation("ledger: %llu bytes of data pages mapped, the collector says it reserves %lld", (unsigned long long)mp, (long long)want);
  if (!sim_mapped((u64)M->birth_lo, (char *)M->birth_hi - (char *)M->birth_lo) && M->birth_lo != (void *)M) sim_violation("ledger: the young region %p..%p is not mapped", M->birth_lo, M->birth_hi);
  if (M->old_lo && !sim_mapped((u64)M->old_lo, (char *)M->old_hi - (char *)M->old_lo)) sim_violation("ledger: the old region %p..%p is not mapped", M->old_lo, M->old_hi);
  if (!sim_mapped((u64)M, fixed)) sim_violation("ledger: the first page is not mapped");
  if (M->old_lo && M->old_cur > M->old_hi) sim_violation("figures: old region filled past its end");
  if ((void *)M->birth_storeptr < (void *)M->birth_cur) sim_violation("figures: the remembered set runs into the young objects");
}
void __real_potion_destroy(Potion *P);
void __wrap_potion_destroy(Potion *P) {
  int mon = sim_knob("memmon", 0) != 0;
  if (mon) sim_memmon(P, sim_knob("memmon", 0) == 1);
  __real_potion_destroy(P);
  if (sim_knob("memmon", 0) == 1 && sim_mapped_data()) sim_violation("ledger: %llu bytes of data pages are still mapped after the interpreter was destroyed", (unsigned long long)sim_mapped_data());
  R->destroyed++;
}
int heap_main(void);
int work_main(const char *mode) { return !strcmp(mode, "heap") ? heap_main() : 99; }
