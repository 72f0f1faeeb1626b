// Frozen by tools/extract_spec.py: constituents (T s h p N' p1 shift | xi nu nu' nu'')
#pragma once
namespace ref {
struct Spec { const char* name; bool lp; bool adm; int a[11]; const char* f; };
static const Spec kSpec[75] = {
  {"Mm", true, false, {0, 1, 0, -1, 0, 0, 0, 0, 0, 0, 0}, "mm"},  // 0
  {"Mf", true, false, {0, 2, 0, 0, 0, 0, 0, -2, 0, 0, 0}, "mf"},  // 1
  {"Mtm", true, false, {0, 3, 0, -1, 0, 0, 0, -2, 0, 0, 0}, "mf"},  // 2
  {"Msqm", true, false, {0, 4, -2, 0, 0, 0, 0, -2, 0, 0, 0}, "mf"},  // 3
  {"2Q1", false, true, {1, -4, 1, 2, 0, 0, 1, 2, -1, 0, 0}, "o1"},  // 4
  {"Sigma1", false, true, {1, -4, 3, 0, 0, 0, 1, 2, -1, 0, 0}, "o1"},  // 5
  {"Q1", false, false, {1, -3, 1, 1, 0, 0, 1, 2, -1, 0, 0}, "o1"},  // 6
  {"Rho1", false, true, {1, -3, 3, -1, 0, 0, 1, 2, -1, 0, 0}, "o1"},  // 7
  {"O1", false, false, {1, -2, 1, 0, 0, 0, 1, 2, -1, 0, 0}, "o1"},  // 8
  {"MP1", false, false, {1, -2, 3, 0, 0, 0, -1, 0, -1, 0, 0}, "j1"},  // 9
  {"M11", false, true, {1, -1, 1, 1, 0, 0, -1, 0, -1, 0, 0}, "j1"},  // 10
  {"M12", false, true, {1, -1, 1, -1, 0, 0, -1, 2, -1, 0, 0}, "o1"},  // 11
  {"M13", false, false, {1, -1, 1, 1, 0, 0, -1, 0, -1, 0, 0}, "m1"},  // 12
  {"Chi1", false, true, {1, -1, 3, -1, 0, 0, -1, 0, -1, 0, 0}, "j1"},  // 13
  {"Pi1", false, true, {1, 0, -2, 0, 0, 1, 1, 0, 0, 0, 0}, "1"},  // 14
  {"P1", false, false, {1, 0, -1, 0, 0, 0, 1, 0, 0, 0, 0}, "1"},  // 15
  {"S1", false, false, {1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, "1"},  // 16
  {"K1", false, false, {1, 0, 1, 0, 0, 0, -1, 0, 0, -1, 0}, "k1"},  // 17
  {"Psi1", false, false, {1, 0, 2, 0, 0, -1, -1, 0, 0, 0, 0}, "1"},  // 18
  {"Phi1", false, true, {1, 0, 3, 0, 0, 0, -1, 0, 0, 0, 0}, "1"},  // 19
  {"Theta1", false, true, {1, 1, -1, 1, 0, 0, -1, 0, -1, 0, 0}, "j1"},  // 20
  {"J1", false, true, {1, 1, 1, -1, 0, 0, -1, 0, -1, 0, 0}, "j1"},  // 21
  {"OO1", false, true, {1, 2, 1, 0, 0, 0, -1, -2, -1, 0, 0}, "oo1"},  // 22
  {"MNS2", false, false, {2, -5, 4, 1, 0, 0, 0, 4, -4, 0, 0}, "m22"},  // 23
  {"Eps2", false, true, {2, -5, 4, 1, 0, 0, 0, 2, -2, 0, 0}, "m2"},  // 24
  {"2N2", false, true, {2, -4, 2, 2, 0, 0, 0, 2, -2, 0, 0}, "m2"},  // 25
  {"Mu2", false, true, {2, -4, 4, 0, 0, 0, 0, 2, -2, 0, 0}, "m2"},  // 26
  {"2MS2", false, false, {2, -4, 4, 0, 0, 0, 0, 4, -4, 0, 0}, "m22"},  // 27
  {"N2", false, false, {2, -3, 2, 1, 0, 0, 0, 2, -2, 0, 0}, "m2"},  // 28
  {"Nu2", false, true, {2, -3, 4, -1, 0, 0, 0, 2, -2, 0, 0}, "m2"},  // 29
  {"M2", false, false, {2, -2, 2, 0, 0, 0, 0, 2, -2, 0, 0}, "m2"},  // 30
  {"MKS2", false, false, {2, -2, 4, 0, 0, 0, 0, 2, -2, 0, -2}, "m2_k2"},  // 31
  {"Lambda2", false, true, {2, -1, 0, 1, 0, 0, 2, 2, -2, 0, 0}, "m2"},  // 32
  {"L2", false, true, {2, -1, 2, -1, 0, 0, 2, 2, -2, 0, 0}, "l2"},  // 33
  {"2MN2", false, false, {2, -1, 2, -1, 0, 0, 2, 2, -2, 0, 0}, "m23"},  // 34
  {"T2", false, true, {2, 0, -1, 0, 0, 1, 0, 0, 0, 0, 0}, "1"},  // 35
  {"S2", false, false, {2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, "1"},  // 36
  {"R2", false, false, {2, 0, 1, 0, 0, -1, 2, 0, 0, 0, 0}, "1"},  // 37
  {"K2", false, false, {2, 0, 2, 0, 0, 0, 0, 0, 0, 0, -2}, "k2"},  // 38
  {"MSN2", false, false, {2, 1, 0, -1, 0, 0, 0, 0, 0, 0, 0}, "m22"},  // 39
  {"Eta2", false, true, {2, 1, 2, -1, 0, 0, 0, 0, -2, 0, 0}, "79"},  // 40
  {"2SM2", false, false, {2, 2, -2, 0, 0, 0, 0, -2, 2, 0, 0}, "m2"},  // 41
  {"MO3", false, false, {3, -4, 3, 0, 0, 0, 1, 4, -3, 0, 0}, "m2_o1"},  // 42
  {"2MK3", false, false, {3, -4, 3, 0, 0, 0, 1, 4, -4, 1, 0}, "m22_k1"},  // 43
  {"M3", false, false, {3, -3, 3, 0, 0, 0, 0, 3, -3, 0, 0}, "m3"},  // 44
  {"MK3", false, false, {3, -2, 3, 0, 0, 0, -1, 2, -2, -1, 0}, "m2_k1"},  // 45
  {"N4", false, false, {4, -6, 4, 2, 0, 0, 0, 4, -4, 0, 0}, "m22"},  // 46
  {"MN4", false, false, {4, -5, 4, 1, 0, 0, 0, 4, -4, 0, 0}, "m22"},  // 47
  {"M4", false, false, {4, -4, 4, 0, 0, 0, 0, 4, -4, 0, 0}, "m22"},  // 48
  {"SN4", false, false, {4, -3, 2, 1, 0, 0, 0, 2, -2, 0, 0}, "m2"},  // 49
  {"MS4", false, false, {4, -2, 2, 0, 0, 0, 0, 2, -2, 0, 0}, "m2"},  // 50
  {"MK4", false, false, {4, -2, 4, 0, 0, 0, 0, 2, -2, -2, 0}, "m2_k2"},  // 51
  {"S4", false, false, {4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, "1"},  // 52
  {"SK4", false, false, {4, 0, 2, 0, 0, 0, 0, 0, 0, 0, -2}, "k2"},  // 53
  {"R4", false, false, {4, 0, 2, 0, 0, -2, 0, 0, 0, 0, 0}, "1"},  // 54
  {"2MN6", false, false, {6, -7, 6, 1, 0, 0, 0, 6, -6, 0, 0}, "m23"},  // 55
  {"M6", false, false, {6, -6, 6, 0, 0, 0, 0, 6, -6, 0, 0}, "m23"},  // 56
  {"MSN6", false, false, {6, -5, 4, 1, 0, 0, 0, 4, -4, 0, 0}, "m22"},  // 57
  {"2MS6", false, false, {6, -4, 4, 0, 0, 0, 0, 4, -4, 0, 0}, "m22"},  // 58
  {"2MK6", false, false, {6, -4, 6, 0, 0, 0, 0, 4, -4, 0, -2}, "m23_k2"},  // 59
  {"2SM6", false, false, {6, -2, 2, 0, 0, 0, 0, 2, -2, 0, 0}, "m2"},  // 60
  {"MSK6", false, false, {6, -2, 4, 0, 0, 0, 0, 2, -2, -2, 0}, "m2_k2"},  // 61
  {"S6", false, false, {6, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, "1"},  // 62
  {"M8", false, false, {8, -8, 8, 0, 0, 0, 0, 8, -8, 0, 0}, "m24"},  // 63
  {"MSf", true, false, {0, 2, -2, 0, 0, 0, 0, 2, -2, 0, 0}, "m2"},  // 64
  {"Ssa", true, false, {0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0}, "1"},  // 65
  {"Sa", true, false, {0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0}, "1"},  // 66
  {"Sa1", true, false, {0, 0, 1, 0, 0, -1, 0, 0, 0, 0, 0}, "1"},  // 67
  {"Sta", true, false, {0, 0, 3, 0, 0, -1, 0, 0, 0, 0, 0}, "1"},  // 68
  {"Mm1", true, false, {0, 1, 0, 1, 0, 0, 2, -2, 0, 0, 0}, "mf"},  // 69
  {"Mf1", true, false, {0, 2, 0, -2, 0, 0, 0, 0, 0, 0, 0}, "mm"},  // 70
  {"A5", true, false, {0, 2, -2, 0, 0, 0, 0, 0, 0, 0, 0}, "mm"},  // 71
  {"M0", true, false, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, "mm"},  // 72
  {"Mm2", true, false, {0, 1, 0, 0, 0, 0, -1, -1, 0, 0, 0}, "141"},  // 73
  {"Mf2", true, false, {0, 2, 0, -1, 0, 0, -1, -1, 0, 0, 0}, "141"},  // 74
};
struct kOrder2_row { int d[5]; double c; const char* label; };
static const kOrder2_row kOrder2[106] = {
  {{0, 0, 0, 1, 0}, 0.02793, "M0"},
  {{0, 0, 0, 2, 0}, -0.00027, "M0"},
  {{0, 0, 2, 1, 0}, 0.00004, ""},
  {{0, 1, 0, -1, -1}, -0.00004, "Sa1"},
  {{0, 1, 0, 0, -1}, -0.00492, "Sa1"},
  {{0, 1, 0, 0, 1}, 0.00026, ""},
  {{0, 1, 0, 1, -1}, 0.00005, "Sa1"},
  {{0, 2, -2, -1, 0}, 0.00002, ""},
  {{0, 2, -2, 0, 0}, -0.00031, ""},
  {{0, 2, 0, 0, 0}, -0.03095, "Ssa"},
  {{0, 2, 0, 0, -2}, -0.00008, ""},
  {{0, 2, 0, 1, 0}, 0.00077, "Ssa"},
  {{0, 2, 0, 2, 0}, 0.00017, "Ssa"},
  {{0, 3, 0, 0, -1}, -0.00181, "Sta"},
  {{0, 3, 0, 1, -1}, 0.00003, "Sta"},
  {{0, 4, 0, 0, -2}, -0.00007, ""},
  {{1, -3, 1, -1, 1}, 0.00002, ""},
  {{1, -3, 1, 0, 1}, -0.00029, ""},
  {{1, -3, 1, 1, 1}, 0.00002, ""},
  {{1, -2, -1, -2, 0}, 0.00003, ""},
  {{1, -2, -1, -1, 0}, 0.00007, ""},
  {{1, -2, 1, -1, 0}, 0.00048, ""},
  {{1, -2, 1, 0, 0}, -0.00673, ""},
  {{1, -2, 1, 1, 0}, 0.00043, ""},
  {{1, -1, -1, -1, 1}, 0.00002, ""},
  {{1, -1, -1, 0, 1}, -0.00021, ""},
  {{1, -1, -1, 1, 1}, 0.00000, ""},
  {{1, -1, 0, 0, 0}, 0.00020, ""},
  {{1, -1, 1, 0, -1}, 0.00005, ""},
  {{1, 0, -1, -2, 0}, -0.00003, "Mm"},
  {{1, 0, -1, -1, 0}, 0.00231, "Mm"},
  {{1, 0, -1, 0, 0}, -0.03518, "Mm"},
  {{1, 0, -1, 1, 0}, 0.00228, "Mm"},
  {{1, 0, 1, 0, 0}, 0.00189, "Mm1"},
  {{1, 0, 1, 1, 0}, 0.00077, "Mm1"},
  {{1, 0, 1, 2, 0}, 0.00021, "Mm1"},
  {{1, 1, -1, 0, -1}, 0.00018, ""},
  {{1, 2, -1, 0, 0}, 0.00049, ""},
  {{1, 2, -1, 1, 0}, 0.00024, ""},
  {{1, 2, -1, 2, 0}, 0.00004, ""},
  {{1, 3, -1, 0, -1}, 0.00003, ""},
  {{2, -4, 2, 0, 0}, -0.00011, ""},
  {{2, -3, 0, 0, 1}, -0.00038, ""},
  {{2, -3, 0, 1, 1}, 0.00002, ""},
  {{2, -2, 0, -1, 0}, -0.00042, "A5"},
  {{2, -2, 0, 0, 0}, -0.00582, "A5"},
  {{2, -2, 0, 1, 0}, 0.00037, "A5"},
  {{2, -2, 2, 0, 0}, 0.00004, ""},
  {{2, -1, -2, 0, 1}, -0.00004, ""},
  {{2, -1, -1, 0, 0}, 0.00003, ""},
  {{2, -1, 0, 0, -1}, 0.00007, ""},
  {{2, -1, 0, 0, 1}, -0.00020, ""},
  {{2, -1, 0, 1, 1}, -0.00004, ""},
  {{2, 0, -2, -1, 0}, 0.00015, "Mf1"},
  {{2, 0, -2, 0, 0}, -0.00288, "Mf1"},
  {{2, 0, -2, 1, 0}, 0.00019, "Mf1"},
  {{2, 0, 0, 0, 0}, -0.06662, "Mf"},
  {{2, 0, 0, 1, 0}, -0.02762, "Mf"},
  {{2, 0, 0, 2, 0}, -0.00258, "Mf"},
  {{2, 0, 0, 3, 0}, 0.00007, "Mf"},
  {{2, 1, -2, 0, -1}, 0.00003, ""},
  {{2, 1, 0, 0, -1}, 0.00023, ""},
  {{2, 1, 0, 1, -1}, 0.00006, ""},
  {{2, 2, -2, 0, 0}, 0.00020, ""},
  {{2, 2, -2, 1, 0}, 0.00008, ""},
  {{2, 2, 0, 2, 0}, 0.00003, ""},
  {{3, -5, 1, 0, 1}, -0.00002, ""},
  {{3, -4, 1, 0, 0}, -0.00017, ""},
  {{3, -3, -1, 0, 1}, -0.00007, ""},
  {{3, -3, 1, 0, 1}, -0.00012, ""},
  {{3, -3, 1, 1, 1}, -0.00004, ""},
  {{3, -2, -1, -1, 0}, -0.00010, ""},
  {{3, -2, -1, 0, 0}, -0.00091, ""},
  {{3, -2, -1, 1, 0}, 0.00006, ""},
  {{3, -2, 1, 0, 0}, -0.00242, ""},
  {{3, -2, 1, 1, 0}, -0.00100, ""},
  {{3, -2, 1, 2, 0}, -0.00009, ""},
  {{3, -1, -1, 0, 1}, -0.00013, ""},
  {{3, -1, -1, 1, 1}, -0.00004, ""},
  {{3, -1, 0, 0, 0}, 0.00006, ""},
  {{3, -1, 0, 1, 0}, 0.00003, ""},
  {{3, -1, 1, 0, -1}, 0.00003, ""},
  {{3, 0, -3, 0, 0}, -0.00023, ""},
  {{3, 0, -3, 1, -1}, 0.00004, ""},
  {{3, 0, -3, 1, 1}, 0.00004, ""},
  {{3, 0, -1, 0, 0}, -0.01275, "Mtm"},
  {{3, 0, -1, 1, 0}, -0.00528, "Mtm"},
  {{3, 0, -1, 2, 0}, -0.00051, "Mtm"},
  {{3, 0, 1, 2, 0}, 0.00005, ""},
  {{3, 0, 1, 3, 0}, 0.00002, ""},
  {{3, 1, -1, 0, -1}, 0.00011, ""},
  {{3, 1, -1, 1, -1}, 0.00004, ""},
  {{4, -4, 0, 0, 0}, -0.00008, ""},
  {{4, -4, 2, 0, 0}, -0.00006, ""},
  {{4, -4, 2, 1, 0}, -0.00002, ""},
  {{4, -3, 0, 0, 1}, -0.00014, ""},
  {{4, -3, 0, 1, 1}, -0.00006, ""},
  {{4, -2, -2, 0, 0}, -0.00011, ""},
  {{4, -2, 0, 0, 0}, -0.00205, "Msqm"},
  {{4, -2, 0, 1, 0}, -0.00085, "Msqm"},
  {{4, -2, 0, 2, 0}, -0.00008, "Msqm"},
  {{4, -1, -2, 0, 1}, -0.00003, ""},
  {{4, -1, 0, 0, -1}, 0.00003, ""},
  {{4, 0, -2, 0, 0}, -0.00169, ""},
  {{4, 0, -2, 1, 0}, -0.00070, ""},
  {{4, 0, -2, 2, 0}, -0.00006, ""},
};
struct kOrder3_row { int d[5]; double c; const char* label; };
static const kOrder3_row kOrder3[17] = {
  {{0, 0, 1, 0, 0}, -0.00021, ""},
  {{0, 2, -1, 0, 0}, -0.00004, ""},
  {{1, -2, 0, 0, 0}, 0.00004, ""},
  {{1, 0, 0, -1, 0}, 0.00019, "Mm2"},
  {{1, 0, 0, 0, 0}, -0.00375, "Mm2"},
  {{1, 0, 0, 1, 0}, -0.00059, "Mm2"},
  {{1, 0, 0, 2, 0}, 0.00005, "Mm2"},
  {{2, -2, 1, 0, 0}, -0.00012, ""},
  {{2, 0, -1, 0, 0}, -0.00061, "Mf2"},
  {{2, 0, -1, 1, 0}, -0.00010, "Mf2"},
  {{3, -2, 0, 0, 0}, -0.00010, ""},
  {{3, 0, -2, 0, 0}, -0.00007, ""},
  {{3, 0, 0, 0, 0}, -0.00030, ""},
  {{3, 0, 0, 1, 0}, -0.00019, ""},
  {{3, 0, 0, 2, 0}, -0.00004, ""},
  {{4, 0, -1, 0, 0}, -0.00008, ""},
  {{4, 0, -1, 1, 0}, -0.00005, ""},
};
}  // namespace ref
