// Vacua and orbital spaces for operator algebra.
#pragma once
#include "nets.hpp"
namespace vf {

enum Kind { SR, SRphys, MR, FC, Boson, SFphys, SF };
struct World {
  Kind kind;
  Statistics stat = Statistics::FermiDirac;
  bool spinfree = false;
  std::map<wstring, Range> range;
  vector<wstring> spaces;    // usable in operators
  vector<int> V;             // occupied (spin) orbitals of the vacuum
  vector<int> starts;        // start states
  string st = "F";
};

inline World make_world(Kind k, Rng& r, IndexSpace::QuantumNumbers q = IndexSpace::QuantumNumbers::null) {
  World w;
  w.kind = k;
  auto isr = std::make_shared<IndexSpaceRegistry>();
  Vacuum vac = k == SRphys || k == Boson || k == SFphys ? Vacuum::Physical : Vacuum::SingleProduct;
  int M = 4, nocc = 2;
  if (k == SR || k == SRphys || k == SF || k == SFphys || k == Boson) {
    isr->add(L"i", 0b01, q, is_vacuum_occupied, is_reference_occupied, is_hole).add(L"a", 0b10, q, is_particle).add_union(L"p", {L"i", L"a"}, is_complete);
    int ni = 2, na = 2;
    if (k == SF || k == SFphys) { ni = 1; na = r.range(1, 2); if (r.chance(25)) { ni = 2; na = 1; } }
    else if (k == Boson) { ni = 1; na = r.range(1, 2); }
    else if (r.chance(20)) { ni = r.range(1, 3); na = 4 - ni; }
    w.range = {{L"i", {0, ni}}, {L"a", {ni, na}}, {L"p", {0, ni + na}}};
    w.spaces = {L"i", L"a", L"p"};
    M = ni + na;
    nocc = ni;
  } else if (k == MR) {
    isr->add(L"i", 0b001, q, is_vacuum_occupied).add(L"u", 0b010, q).add(L"a", 0b100, q)
        .add_union(L"I", {L"i", L"u"}, is_reference_occupied, is_hole).add_union(L"A", {L"u", L"a"}, is_particle).add_union(L"p", {L"I", L"a"}, is_complete);
    w.range = {{L"i", {0, 2}}, {L"u", {2, 1}}, {L"a", {3, 1}}, {L"I", {0, 3}}, {L"A", {2, 2}}, {L"p", {0, 4}}};
    if (r.chance(50)) w.range = {{L"i", {0, 1}}, {L"u", {1, 2}}, {L"a", {3, 1}}, {L"I", {0, 3}}, {L"A", {1, 3}}, {L"p", {0, 4}}};
    w.spaces = {L"i", L"u", L"a", L"I", L"A", L"p"};
    nocc = w.range[L"i"].n;
  } else {
    isr->add(L"o", 0b0001, q).add(L"i", 0b0010, q, is_hole).add(L"a", 0b0100, q, is_particle).add(L"g", 0b1000, q)
        .add_union(L"m", {L"o", L"i"}, is_vacuum_occupied, is_reference_occupied).add_union(L"e", {L"a", L"g"}).add_union(L"x", {L"i", L"a"}).add_union(L"p", {L"m", L"e"}, is_complete);
    w.range = {{L"o", {0, 1}}, {L"i", {1, 1}}, {L"a", {2, 1}}, {L"g", {3, 1}}, {L"m", {0, 2}}, {L"e", {2, 2}}, {L"x", {1, 2}}, {L"p", {0, 4}}};
    w.spaces = {L"o", L"i", L"a", L"m", L"e", L"x", L"p"};
  }
  if (q != IndexSpace::QuantumNumbers::null) isr->physical_particle_attribute_mask(q.to_int32());
  w.spinfree = k == SF || k == SFphys;
  w.stat = k == Boson ? Statistics::BoseEinstein : Statistics::FermiDirac;
  w.st = k == Boson ? "B" : w.spinfree ? "X" : "F";
  if (vac == Vacuum::SingleProduct) for (int o = 1; o <= (w.spinfree ? 2 : 1) * nocc; ++o) w.V.push_back(o);
  if (k == Boson) {
    for (int s : {0, 1, 8, 9, 2, 16, 10}) if (M > 1) w.starts.push_back(s);
    if (M > 2) for (int s : {64, 65, 73, 129}) w.starts.push_back(s);
    if (M == 1) w.starts = {0, 1, 2, 3};
  } else {
    int n = 1 << (w.spinfree ? 2 * M : M);
    w.starts = iota(n);
    r.shuffle(w.starts);
    if (w.starts.size() > 12) w.starts.resize(12);
  }
  set_default_context({.index_space_registry_shared_ptr = isr,
                       .vacuum = vac,
                       .spbasis = w.spinfree ? SPBasis::Spinfree : SPBasis::Spinor,
                       .first_dummy_index_ordinal = 100});
  return w;
}

}  // namespace vf
