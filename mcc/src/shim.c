/* Every function of the header, called by a C compiler that sees the header only. Results are plain numbers. */
#include "rustsat.h"
typedef struct Api {
  void *(*create)(void);
  void (*drop)(void *);
  int (*add)(void *, int lit, size_t weight);
  void (*encode)(void *, uint32_t *n, CClauseCollector c, void *d);
  void (*reserve)(void *, uint32_t *n);
  void (*encode_ub)(void *, size_t lo, size_t hi, uint32_t *n, CClauseCollector c, void *d);
  void (*encode_lb)(void *, size_t lo, size_t hi, uint32_t *n, CClauseCollector c, void *d);
  int (*enforce_ub)(void *, size_t b, CAssumpCollector c, void *d);
  int (*enforce_lb)(void *, size_t b, CAssumpCollector c, void *d);
} Api;
static void *n_pairwise(void) { return pairwise_new(); }
static void d_pairwise(void *e) { pairwise_drop((struct Pairwise *)e); }
static int a_pairwise(void *e, int lit, size_t weight) { (void)weight; return (int)pairwise_add((struct Pairwise *)e, lit); }
static void e_pairwise(void *e, uint32_t *n, CClauseCollector c, void *d) { pairwise_encode((struct Pairwise *)e, n, c, d); }
static const Api api_pairwise = {n_pairwise, d_pairwise, a_pairwise, e_pairwise, 0, 0, 0, 0, 0};
static void *n_ladder(void) { return ladder_new(); }
static void d_ladder(void *e) { ladder_drop((struct Ladder *)e); }
static int a_ladder(void *e, int lit, size_t weight) { (void)weight; return (int)ladder_add((struct Ladder *)e, lit); }
static void e_ladder(void *e, uint32_t *n, CClauseCollector c, void *d) { ladder_encode((struct Ladder *)e, n, c, d); }
static const Api api_ladder = {n_ladder, d_ladder, a_ladder, e_ladder, 0, 0, 0, 0, 0};
static void *n_bitwise(void) { return bitwise_new(); }
static void d_bitwise(void *e) { bitwise_drop((struct Bitwise *)e); }
static int a_bitwise(void *e, int lit, size_t weight) { (void)weight; return (int)bitwise_add((struct Bitwise *)e, lit); }
static void e_bitwise(void *e, uint32_t *n, CClauseCollector c, void *d) { bitwise_encode((struct Bitwise *)e, n, c, d); }
static const Api api_bitwise = {n_bitwise, d_bitwise, a_bitwise, e_bitwise, 0, 0, 0, 0, 0};
static void *n_commander(void) { return commander_new(); }
static void d_commander(void *e) { commander_drop((struct Commander *)e); }
static int a_commander(void *e, int lit, size_t weight) { (void)weight; return (int)commander_add((struct Commander *)e, lit); }
static void e_commander(void *e, uint32_t *n, CClauseCollector c, void *d) { commander_encode((struct Commander *)e, n, c, d); }
static const Api api_commander = {n_commander, d_commander, a_commander, e_commander, 0, 0, 0, 0, 0};
static void *n_bimander(void) { return bimander_new(); }
static void d_bimander(void *e) { bimander_drop((struct Bimander *)e); }
static int a_bimander(void *e, int lit, size_t weight) { (void)weight; return (int)bimander_add((struct Bimander *)e, lit); }
static void e_bimander(void *e, uint32_t *n, CClauseCollector c, void *d) { bimander_encode((struct Bimander *)e, n, c, d); }
static const Api api_bimander = {n_bimander, d_bimander, a_bimander, e_bimander, 0, 0, 0, 0, 0};
static void *n_twoproduct(void) { return twoproduct_new(); }
static void d_twoproduct(void *e) { twoproduct_drop((struct TwoProduct *)e); }
static int a_twoproduct(void *e, int lit, size_t weight) { (void)weight; return (int)twoproduct_add((struct TwoProduct *)e, lit); }
static void e_twoproduct(void *e, uint32_t *n, CClauseCollector c, void *d) { twoproduct_encode((struct TwoProduct *)e, n, c, d); }
static const Api api_twoproduct = {n_twoproduct, d_twoproduct, a_twoproduct, e_twoproduct, 0, 0, 0, 0, 0};
static void *n_tot(void) { return tot_new(); }
static void d_tot(void *e) { tot_drop((struct Totalizer *)e); }
static int a_tot(void *e, int lit, size_t weight) { (void)weight; return (int)tot_add((struct Totalizer *)e, lit); }
static void r_tot(void *e, uint32_t *n) { tot_reserve((struct Totalizer *)e, n); }
static void eub_tot(void *e, size_t lo, size_t hi, uint32_t *n, CClauseCollector c, void *d) { tot_encode_ub((struct Totalizer *)e, lo, hi, n, c, d); }
static int fub_tot(void *e, size_t b, CAssumpCollector c, void *d) {
  int a = 0;
  MaybeError r = tot_enforce_ub((struct Totalizer *)e, b, &a);
  if (r == Ok && a) c(a, d);
  if (r != Ok && a) return -1;
  return (int)r;
}
static void elb_tot(void *e, size_t lo, size_t hi, uint32_t *n, CClauseCollector c, void *d) { tot_encode_lb((struct Totalizer *)e, lo, hi, n, c, d); }
static int flb_tot(void *e, size_t b, CAssumpCollector c, void *d) {
  int a = 0;
  MaybeError r = tot_enforce_lb((struct Totalizer *)e, b, &a);
  if (r == Ok && a) c(a, d);
  if (r != Ok && a) return -1;
  return (int)r;
}
static const Api api_tot = {n_tot, d_tot, a_tot, 0, r_tot, eub_tot, elb_tot, fub_tot, flb_tot};
static void *n_gte(void) { return gte_new(); }
static void d_gte(void *e) { gte_drop((struct GeneralizedTotalizer *)e); }
static int a_gte(void *e, int lit, size_t weight) { return (int)gte_add((struct GeneralizedTotalizer *)e, lit, weight); }
static void r_gte(void *e, uint32_t *n) { gte_reserve((struct GeneralizedTotalizer *)e, n); }
static void eub_gte(void *e, size_t lo, size_t hi, uint32_t *n, CClauseCollector c, void *d) { gte_encode_ub((struct GeneralizedTotalizer *)e, lo, hi, n, c, d); }
static int fub_gte(void *e, size_t b, CAssumpCollector c, void *d) { return (int)gte_enforce_ub((struct GeneralizedTotalizer *)e, b, c, d); }
static const Api api_gte = {n_gte, d_gte, a_gte, 0, r_gte, eub_gte, 0, fub_gte, 0};
static void *n_bin_adder(void) { return bin_adder_new(); }
static void d_bin_adder(void *e) { bin_adder_drop((struct BinaryAdder *)e); }
static int a_bin_adder(void *e, int lit, size_t weight) { return (int)bin_adder_add((struct BinaryAdder *)e, lit, weight); }
static void r_bin_adder(void *e, uint32_t *n) { bin_adder_reserve((struct BinaryAdder *)e, n); }
static void eub_bin_adder(void *e, size_t lo, size_t hi, uint32_t *n, CClauseCollector c, void *d) { bin_adder_encode_ub((struct BinaryAdder *)e, lo, hi, n, c, d); }
static int fub_bin_adder(void *e, size_t b, CAssumpCollector c, void *d) { return (int)bin_adder_enforce_ub((struct BinaryAdder *)e, b, c, d); }
static void elb_bin_adder(void *e, size_t lo, size_t hi, uint32_t *n, CClauseCollector c, void *d) { bin_adder_encode_lb((struct BinaryAdder *)e, lo, hi, n, c, d); }
static int flb_bin_adder(void *e, size_t b, CAssumpCollector c, void *d) { return (int)bin_adder_enforce_lb((struct BinaryAdder *)e, b, c, d); }
static const Api api_bin_adder = {n_bin_adder, d_bin_adder, a_bin_adder, 0, r_bin_adder, eub_bin_adder, elb_bin_adder, fub_bin_adder, flb_bin_adder};
static void *n_dpw(void) { return dpw_new(); }
static void d_dpw(void *e) { dpw_drop((struct DynamicPolyWatchdog *)e); }
static int a_dpw(void *e, int lit, size_t weight) { return (int)dpw_add((struct DynamicPolyWatchdog *)e, lit, weight); }
static void r_dpw(void *e, uint32_t *n) { dpw_reserve((struct DynamicPolyWatchdog *)e, n); }
static void eub_dpw(void *e, size_t lo, size_t hi, uint32_t *n, CClauseCollector c, void *d) { dpw_encode_ub((struct DynamicPolyWatchdog *)e, lo, hi, n, c, d); }
static int fub_dpw(void *e, size_t b, CAssumpCollector c, void *d) { return (int)dpw_enforce_ub((struct DynamicPolyWatchdog *)e, b, c, d); }
static const Api api_dpw = {n_dpw, d_dpw, a_dpw, 0, r_dpw, eub_dpw, 0, fub_dpw, 0};
const Api *const apis[] = {&api_pairwise, &api_ladder, &api_bitwise, &api_commander, &api_bimander, &api_twoproduct, &api_tot, &api_gte, &api_bin_adder, &api_dpw};
const int errors[] = {Ok, NotEncoded, Unsat, InvalidState, InvalidLiteral, PrecisionNotPow2, PrecisionDecreased};
size_t shim_coarse_ub(void *e, size_t b) { return dpw_coarse_ub((struct DynamicPolyWatchdog *)e, b); }
int shim_set_precision(void *e, size_t p) { return (int)dpw_set_precision((struct DynamicPolyWatchdog *)e, p); }
size_t shim_next_precision(void *e) { return dpw_next_precision((struct DynamicPolyWatchdog *)e); }
bool shim_is_max_precision(void *e) { return dpw_is_max_precision((struct DynamicPolyWatchdog *)e); }
void shim_limit_range(void *e, size_t lo, size_t hi, CClauseCollector c, void *d) { dpw_limit_range((struct DynamicPolyWatchdog *)e, lo, hi, c, d); }
