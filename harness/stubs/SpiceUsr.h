// Stand-in for CSPICE (absent in this sandbox): the few entry points s2e-core calls, with an
// ephemeris that the harness sets body by body. Written for /verif only; not part of /repo.
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
typedef int SpiceInt;
typedef double SpiceDouble;
typedef int SpiceBoolean;
typedef char SpiceChar;
typedef const char ConstSpiceChar;
#define SPICETRUE 1
#define SPICEFALSE 0
void str2et_c(ConstSpiceChar* str, SpiceDouble* et);
void bodc2n_c(SpiceInt code, SpiceInt lenout, SpiceChar* name, SpiceBoolean* found);
void bodn2c_c(ConstSpiceChar* name, SpiceInt* code, SpiceBoolean* found);
void bodvcd_c(SpiceInt id, ConstSpiceChar* item, SpiceInt maxn, SpiceInt* dim, SpiceDouble* values);
void furnsh_c(ConstSpiceChar* file);
void spkezr_c(ConstSpiceChar* target, SpiceDouble et, ConstSpiceChar* frame, ConstSpiceChar* abcorr, ConstSpiceChar* obs,
              SpiceDouble state[6], SpiceDouble* lt);
void sxform_c(ConstSpiceChar* from, ConstSpiceChar* to, SpiceDouble et, SpiceDouble xform[6][6]);
// harness controls
void stub_set_body(const char* name, const double state_km[6]);
void stub_set_gm(const char* name, double gm_km3_s2);
void stub_reset(void);
void stub_set_rate(const char* name, const double rate_km_s[6]);  // state(et) = state + rate*et
#ifdef __cplusplus
}
#endif
