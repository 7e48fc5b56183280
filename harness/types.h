// A small particle and decay list for drivers that need one.
#ifndef VERIF_TYPES_H
#define VERIF_TYPES_H
#include <fstream>
#include <iterator>
#include <string>
#include "smash/decaymodes.h"
#include "smash/isoparticletype.h"
#include "smash/particletype.h"
inline std::string verif_slurp(const std::string &p) {
  std::ifstream f(p);
  return {std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>()};
}
inline void verif_types() {
  smash::ParticleType::create_type_list(
      "π  0.138 7.7e-9 - 111 211\n"
      "η  0.548 1.31e-6 - 221\n"
      "σ  0.800 0.400 + 9000221\n"
      "ρ  0.776 0.149 - 113 213\n"
      "ω  0.783 8.49e-3 - 223\n"
      "η' 0.958 1.96e-4 - 331\n"
      "φ  1.019 4.266e-3 - 333\n"
      "K  0.494 0.0 - 311 321\n"
      "K* 0.892 0.0508 - 313 323\n"
      "N  0.938 0.0 + 2112 2212\n"
      "N(1440) 1.440 0.350 + 12112 12212\n"
      "Δ  1.232 0.117 + 1114 2114 2214 2224\n"
      "Λ  1.116 0.0 + 3122\n"
      "Σ  1.189 0.0 + 3112 3212 3222\n"
      "Ξ  1.318 0.0 + 3312 3322\n"
      "Ω  1.672 0.0 + 3334\n"
      "d  1.8756 0.0 + 1000010020\n"
      "d' 1.8770 0.3 - 1000010021\n"
      "γ  0.0 0.0 - 22\n"
      "e  0.000511 0.0 + 11\n");
}
inline void verif_decays() {
  smash::DecayModes::load_decaymodes(
      "σ\n1. 0 π π\n\n"
      "ρ\n1. 1 π π\n\n"
      "ω\n0.983 1 π π π\n0.017 1 π π\n\n"
      "η'\n1. 0 π π η\n\n"
      "φ\n1. 1 K K̅\n\n"
      "K*\n1. 1 K π\n\n"
      "N(1440)\n0.6 1 N π\n0.3 1 Δ π\n0.1 0 N σ\n\n"
      "Δ\n1. 1 N π\n\n"
      "d'\n1. 1 N N\n\n");
}
#endif
