// specification: nominal carrier frequencies in MHz per system letter and band
#ifndef SPEC_FREQ_H
#define SPEC_FREQ_H
static double nominal(char sys, int band, bool &known) {
  known = true;
  if (sys == 'G') {
    if (band == 1) return 1575.42;
    if (band == 2) return 1227.60;
    if (band == 5) return 1176.45;
  } else if (sys == 'R') {
    if (band == 1) return 1602.0;
    if (band == 2) return 1246.0;
    if (band == 3) return 1202.025;
  } else if (sys == 'E') {
    if (band == 1) return 1575.42;
    if (band == 5) return 1176.45;
    if (band == 7) return 1207.14;
    if (band == 8) return 1191.795;
    if (band == 6) return 1278.75;
  } else if (sys == 'S') {
    if (band == 1) return 1575.42;
    if (band == 5) return 1176.45;
  } else if (sys == 'J') {
    if (band == 1) return 1575.42;
    if (band == 2) return 1227.60;
    if (band == 5) return 1176.45;
    if (band == 6) return 1278.75;
  } else if (sys == 'C') {
    if (band == 1) return 1561.098; // B1 in RINEX 3.02
    if (band == 2) return 1561.098; // B1 otherwise
    if (band == 7) return 1207.14;  // B2
    if (band == 6) return 1268.52;  // B3
  } else if (sys == 'I') {
    if (band == 5) return 1176.45;
    if (band == 9) return 2492.028;
  }
  known = false;
  return 0;
}
#endif
