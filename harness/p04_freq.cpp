// property: P04
// sources: satsys.cpp
#include "vf.h"
#include "satsys.hpp"
#include "spec_freq.h"
using namespace ngpt;

template <SATELLITE_SYSTEM S> static void freq_contract(int32_t band, double &f, bool &thrown) {
  thrown = false;
  f = 0;
  try {
    f = satellite_system_traits<S>::band2frequency(band);
  } catch (std::out_of_range &) {
    thrown = true;
  }
}

// GPS: every integer band
CONTRACT(freq_gps) {
  int32_t b = vf_i32("band");
  double f; bool thrown;
  freq_contract<SATELLITE_SYSTEM::gps>(b, f, thrown);
  bool known; double n = nominal('G', b, known);
  vf_assert(thrown == !known, "GPS: unknown band rejected, known band accepted");
  if (known && !thrown) vf_assert_eq(f, n, "GPS: nominal frequency");
}
CONTRACT(freq_galileo) {
  int32_t b = vf_i32("band");
  double f; bool thrown;
  freq_contract<SATELLITE_SYSTEM::galileo>(b, f, thrown);
  bool known; double n = nominal('E', b, known);
  vf_assert(thrown == !known, "Galileo: unknown band rejected, known band accepted");
  if (known && !thrown) vf_assert_eq(f, n, "Galileo: nominal frequency");
}
CONTRACT(freq_sbas) {
  int32_t b = vf_i32("band");
  double f; bool thrown;
  freq_contract<SATELLITE_SYSTEM::sbas>(b, f, thrown);
  bool known; double n = nominal('S', b, known);
  vf_assert(thrown == !known, "SBAS: unknown band rejected, known band accepted");
  if (known && !thrown) vf_assert_eq(f, n, "SBAS: nominal frequency");
}
CONTRACT(freq_qzss) {
  int32_t b = vf_i32("band");
  double f; bool thrown;
  freq_contract<SATELLITE_SYSTEM::qzss>(b, f, thrown);
  bool known; double n = nominal('J', b, known);
  vf_assert(thrown == !known, "QZSS: unknown band rejected, known band accepted");
  if (known && !thrown) vf_assert_eq(f, n, "QZSS: nominal frequency");
}
CONTRACT(freq_beidou) {
  int32_t b = vf_i32("band");
  double f; bool thrown;
  freq_contract<SATELLITE_SYSTEM::beidou>(b, f, thrown);
  bool known; double n = nominal('C', b, known);
  vf_assert(thrown == !known, "BeiDou: unknown band rejected, known band accepted");
  if (known && !thrown) vf_assert_eq(f, n, "BeiDou: nominal frequency");
}
CONTRACT(freq_irnss) {
  int32_t b = vf_i32("band");
  double f; bool thrown;
  freq_contract<SATELLITE_SYSTEM::irnss>(b, f, thrown);
  bool known; double n = nominal('I', b, known);
  vf_assert(thrown == !known, "IRNSS: unknown band rejected, known band accepted");
  if (known && !thrown) vf_assert_eq(f, n, "IRNSS: nominal frequency");
}
// GLONASS: the base frequencies of the FDMA bands (table only)
CONTRACT(freq_glonass) {
  int32_t b = vf_i32("band");
  bool thrown = false;
  double f = 0;
  try {
    f = satellite_system_traits<SATELLITE_SYSTEM::glonass>::frequency_map.at(b);
  } catch (std::out_of_range &) {
    thrown = true;
  }
  bool known; double n = nominal('R', b, known);
  vf_assert(thrown == !known, "GLONASS: unknown band rejected, known band accepted");
  if (known && !thrown) vf_assert_eq(f, n, "GLONASS: nominal frequency");
}
