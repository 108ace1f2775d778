// SPICE test double: the subset of the CSPICE API huira calls, with a scriptable ephemeris.
// Not derived from NAIF code; written for the monitors in /verif (see DESIGN.md, "SPICE double").
#pragma once
typedef double SpiceDouble;
typedef int SpiceInt;
typedef char SpiceChar;
typedef int SpiceBoolean;
typedef const char ConstSpiceChar;
typedef const double ConstSpiceDouble;
#define SPICETRUE 1
#define SPICEFALSE 0
extern "C" {
void erract_c(ConstSpiceChar* op, SpiceInt lenout, SpiceChar* action);
void errprt_c(ConstSpiceChar* op, SpiceInt lenout, SpiceChar* list);
SpiceBoolean failed_c(void);
void getmsg_c(ConstSpiceChar* option, SpiceInt lenout, SpiceChar* msg);
void reset_c(void);
void furnsh_c(ConstSpiceChar* file);
void str2et_c(ConstSpiceChar* timstr, SpiceDouble* et);
void deltet_c(SpiceDouble epoch, ConstSpiceChar* eptype, SpiceDouble* delta);
SpiceDouble unitim_c(SpiceDouble epoch, ConstSpiceChar* insys, ConstSpiceChar* outsys);
void timout_c(SpiceDouble et, ConstSpiceChar* pictur, SpiceInt lenout, SpiceChar* output);
void spkezr_c(ConstSpiceChar* targ, SpiceDouble et, ConstSpiceChar* ref, ConstSpiceChar* abcorr,
              ConstSpiceChar* obs, SpiceDouble starg[6], SpiceDouble* lt);
void pxform_c(ConstSpiceChar* from, ConstSpiceChar* to, SpiceDouble et, SpiceDouble rotate[3][3]);
void sxform_c(ConstSpiceChar* from, ConstSpiceChar* to, SpiceDouble et, SpiceDouble xform[6][6]);
void xf2rav_c(ConstSpiceDouble xform[6][6], SpiceDouble rot[3][3], SpiceDouble av[3]);
void conics_c(ConstSpiceDouble elts[8], SpiceDouble et, SpiceDouble state[6]);
}
