/* declarations of the CSPICE routines that the simulator calls; the library is not available here */
#pragma once
typedef double SpiceDouble;
typedef int SpiceInt;
typedef int SpiceBoolean;
typedef const char ConstSpiceChar;
typedef char SpiceChar;
#define SPICETRUE 1
#define SPICEFALSE 0
#ifdef __cplusplus
extern "C" {
#endif
void str2et_c(ConstSpiceChar* text, SpiceDouble* et);
void spkgeo_c(SpiceInt target, SpiceDouble et, ConstSpiceChar* frame, SpiceInt observer, SpiceDouble state[6], SpiceDouble* lt);
void spkezr_c(ConstSpiceChar* target, SpiceDouble et, ConstSpiceChar* frame, ConstSpiceChar* abcorr, ConstSpiceChar* observer, SpiceDouble state[6], SpiceDouble* lt);
void bodn2c_c(ConstSpiceChar* name, SpiceInt* code, SpiceBoolean* found);
void bodc2n_c(SpiceInt code, SpiceInt len, SpiceChar* name, SpiceBoolean* found);
void bodvrd_c(ConstSpiceChar* body, ConstSpiceChar* item, SpiceInt maxn, SpiceInt* dim, SpiceDouble* values);
void bodvcd_c(SpiceInt body, ConstSpiceChar* item, SpiceInt maxn, SpiceInt* dim, SpiceDouble* values);
void furnsh_c(ConstSpiceChar* file);
void sxform_c(ConstSpiceChar* from, ConstSpiceChar* to, SpiceDouble et, SpiceDouble m[6][6]);
void pxform_c(ConstSpiceChar* from, ConstSpiceChar* to, SpiceDouble et, SpiceDouble m[3][3]);
#ifdef __cplusplus
}
#endif
