// id, name, short, inferred by default, {T s h p N p1 shift xi nu nu' nu''}, node factor
static const RefWave kRefWaves[75] = {
  {0, "Mm", 0, 0, {0, 1, 0, -1, 0, 0, 0, 0, 0, 0, 0}, F_MM},
  {1, "Mf", 0, 0, {0, 2, 0, 0, 0, 0, 0, -2, 0, 0, 0}, F_MF},
  {2, "Mtm", 0, 0, {0, 3, 0, -1, 0, 0, 0, -2, 0, 0, 0}, F_MF},
  {3, "Msqm", 0, 0, {0, 4, -2, 0, 0, 0, 0, -2, 0, 0, 0}, F_MF},
  {4, "2Q1", 1, 1, {1, -4, 1, 2, 0, 0, 1, 2, -1, 0, 0}, F_O1},
  {5, "Sigma1", 1, 1, {1, -4, 3, 0, 0, 0, 1, 2, -1, 0, 0}, F_O1},
  {6, "Q1", 1, 0, {1, -3, 1, 1, 0, 0, 1, 2, -1, 0, 0}, F_O1},
  {7, "Rho1", 1, 1, {1, -3, 3, -1, 0, 0, 1, 2, -1, 0, 0}, F_O1},
  {8, "O1", 1, 0, {1, -2, 1, 0, 0, 0, 1, 2, -1, 0, 0}, F_O1},
  {9, "MP1", 1, 0, {1, -2, 3, 0, 0, 0, -1, 0, -1, 0, 0}, F_J1},
  {10, "M11", 1, 1, {1, -1, 1, 1, 0, 0, -1, 0, -1, 0, 0}, F_J1},
  {11, "M12", 1, 1, {1, -1, 1, -1, 0, 0, -1, 2, -1, 0, 0}, F_O1},
  {12, "M13", 1, 0, {1, -1, 1, 1, 0, 0, -1, 0, -1, 0, 0}, F_M1},
  {13, "Chi1", 1, 1, {1, -1, 3, -1, 0, 0, -1, 0, -1, 0, 0}, F_J1},
  {14, "Pi1", 1, 1, {1, 0, -2, 0, 0, 1, 1, 0, 0, 0, 0}, F_1},
  {15, "P1", 1, 0, {1, 0, -1, 0, 0, 0, 1, 0, 0, 0, 0}, F_1},
  {16, "S1", 1, 0, {1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, F_1},
  {17, "K1", 1, 0, {1, 0, 1, 0, 0, 0, -1, 0, 0, -1, 0}, F_K1},
  {18, "Psi1", 1, 0, {1, 0, 2, 0, 0, -1, -1, 0, 0, 0, 0}, F_1},
  {19, "Phi1", 1, 1, {1, 0, 3, 0, 0, 0, -1, 0, 0, 0, 0}, F_1},
  {20, "Theta1", 1, 1, {1, 1, -1, 1, 0, 0, -1, 0, -1, 0, 0}, F_J1},
  {21, "J1", 1, 1, {1, 1, 1, -1, 0, 0, -1, 0, -1, 0, 0}, F_J1},
  {22, "OO1", 1, 1, {1, 2, 1, 0, 0, 0, -1, -2, -1, 0, 0}, F_OO1},
  {23, "MNS2", 1, 0, {2, -5, 4, 1, 0, 0, 0, 4, -4, 0, 0}, F_M22},
  {24, "Eps2", 1, 1, {2, -5, 4, 1, 0, 0, 0, 2, -2, 0, 0}, F_M2},
  {25, "2N2", 1, 1, {2, -4, 2, 2, 0, 0, 0, 2, -2, 0, 0}, F_M2},
  {26, "Mu2", 1, 1, {2, -4, 4, 0, 0, 0, 0, 2, -2, 0, 0}, F_M2},
  {27, "2MS2", 1, 0, {2, -4, 4, 0, 0, 0, 0, 4, -4, 0, 0}, F_M22},
  {28, "N2", 1, 0, {2, -3, 2, 1, 0, 0, 0, 2, -2, 0, 0}, F_M2},
  {29, "Nu2", 1, 1, {2, -3, 4, -1, 0, 0, 0, 2, -2, 0, 0}, F_M2},
  {30, "M2", 1, 0, {2, -2, 2, 0, 0, 0, 0, 2, -2, 0, 0}, F_M2},
  {31, "MKS2", 1, 0, {2, -2, 4, 0, 0, 0, 0, 2, -2, 0, -2}, F_M2_K2},
  {32, "Lambda2", 1, 1, {2, -1, 0, 1, 0, 0, 2, 2, -2, 0, 0}, F_M2},
  {33, "L2", 1, 1, {2, -1, 2, -1, 0, 0, 2, 2, -2, 0, 0}, F_L2},
  {34, "2MN2", 1, 0, {2, -1, 2, -1, 0, 0, 2, 2, -2, 0, 0}, F_M23},
  {35, "T2", 1, 1, {2, 0, -1, 0, 0, 1, 0, 0, 0, 0, 0}, F_1},
  {36, "S2", 1, 0, {2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, F_1},
  {37, "R2", 1, 0, {2, 0, 1, 0, 0, -1, 2, 0, 0, 0, 0}, F_1},
  {38, "K2", 1, 0, {2, 0, 2, 0, 0, 0, 0, 0, 0, 0, -2}, F_K2},
  {39, "MSN2", 1, 0, {2, 1, 0, -1, 0, 0, 0, 0, 0, 0, 0}, F_M22},
  {40, "Eta2", 1, 1, {2, 1, 2, -1, 0, 0, 0, 0, -2, 0, 0}, F_79},
  {41, "2SM2", 1, 0, {2, 2, -2, 0, 0, 0, 0, 2, -2, 0, 0}, F_M2},
  {42, "MO3", 1, 0, {3, -4, 3, 0, 0, 0, 1, 4, -3, 0, 0}, F_M2_O1},
  {43, "2MK3", 1, 0, {3, -4, 3, 0, 0, 0, 1, 4, -4, 1, 0}, F_M22_K1},
  {44, "M3", 1, 0, {3, -3, 3, 0, 0, 0, 0, 3, -3, 0, 0}, F_M3},
  {45, "MK3", 1, 0, {3, -2, 3, 0, 0, 0, -1, 2, -2, -1, 0}, F_M2_K1},
  {46, "N4", 1, 0, {4, -6, 4, 2, 0, 0, 0, 4, -4, 0, 0}, F_M22},
  {47, "MN4", 1, 0, {4, -5, 4, 1, 0, 0, 0, 4, -4, 0, 0}, F_M22},
  {48, "M4", 1, 0, {4, -4, 4, 0, 0, 0, 0, 4, -4, 0, 0}, F_M22},
  {49, "SN4", 1, 0, {4, -3, 2, 1, 0, 0, 0, 2, -2, 0, 0}, F_M2},
  {50, "MS4", 1, 0, {4, -2, 2, 0, 0, 0, 0, 2, -2, 0, 0}, F_M2},
  {51, "MK4", 1, 0, {4, -2, 4, 0, 0, 0, 0, 2, -2, -2, 0}, F_M2_K2},
  {52, "S4", 1, 0, {4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, F_1},
  {53, "SK4", 1, 0, {4, 0, 2, 0, 0, 0, 0, 0, 0, 0, -2}, F_K2},
  {54, "R4", 1, 0, {4, 0, 2, 0, 0, -2, 0, 0, 0, 0, 0}, F_1},
  {55, "2MN6", 1, 0, {6, -7, 6, 1, 0, 0, 0, 6, -6, 0, 0}, F_M23},
  {56, "M6", 1, 0, {6, -6, 6, 0, 0, 0, 0, 6, -6, 0, 0}, F_M23},
  {57, "MSN6", 1, 0, {6, -5, 4, 1, 0, 0, 0, 4, -4, 0, 0}, F_M22},
  {58, "2MS6", 1, 0, {6, -4, 4, 0, 0, 0, 0, 4, -4, 0, 0}, F_M22},
  {59, "2MK6", 1, 0, {6, -4, 6, 0, 0, 0, 0, 4, -4, 0, -2}, F_M23_K2},
  {60, "2SM6", 1, 0, {6, -2, 2, 0, 0, 0, 0, 2, -2, 0, 0}, F_M2},
  {61, "MSK6", 1, 0, {6, -2, 4, 0, 0, 0, 0, 2, -2, -2, 0}, F_M2_K2},
  {62, "S6", 1, 0, {6, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, F_1},
  {63, "M8", 1, 0, {8, -8, 8, 0, 0, 0, 0, 8, -8, 0, 0}, F_M24},
  {64, "MSf", 0, 0, {0, 2, -2, 0, 0, 0, 0, 2, -2, 0, 0}, F_M2},
  {65, "Ssa", 0, 0, {0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0}, F_1},
  {66, "Sa", 0, 0, {0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0}, F_1},
  {67, "Sa1", 0, 0, {0, 0, 1, 0, 0, -1, 0, 0, 0, 0, 0}, F_1},
  {68, "Sta", 0, 0, {0, 0, 3, 0, 0, -1, 0, 0, 0, 0, 0}, F_1},
  {69, "Mm1", 0, 0, {0, 1, 0, 1, 0, 0, 2, -2, 0, 0, 0}, F_MF},
  {70, "Mf1", 0, 0, {0, 2, 0, -2, 0, 0, 0, 0, 0, 0, 0}, F_MM},
  {71, "A5", 0, 0, {0, 2, -2, 0, 0, 0, 0, 0, 0, 0, 0}, F_MM},
  {72, "M0", 0, 0, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, F_MM},
  {73, "Mm2", 0, 0, {0, 1, 0, 0, 0, 0, -1, -1, 0, 0, 0}, F_141},
  {74, "Mf2", 0, 0, {0, 2, 0, -1, 0, 0, -1, -1, 0, 0, 0}, F_141},
};
static const double kRefLpe2[106][6] = {
  {0, 0, 0, 1, 0, 0.02793},
  {0, 0, 0, 2, 0, -0.00027},
  {0, 0, 2, 1, 0, 0.00004},
  {0, 1, 0, -1, -1, -0.00004},
  {0, 1, 0, 0, -1, -0.00492},
  {0, 1, 0, 0, 1, 0.00026},
  {0, 1, 0, 1, -1, 0.00005},
  {0, 2, -2, -1, 0, 0.00002},
  {0, 2, -2, 0, 0, -0.00031},
  {0, 2, 0, 0, 0, -0.03095},
  {0, 2, 0, 0, -2, -0.00008},
  {0, 2, 0, 1, 0, 0.00077},
  {0, 2, 0, 2, 0, 0.00017},
  {0, 3, 0, 0, -1, -0.00181},
  {0, 3, 0, 1, -1, 0.00003},
  {0, 4, 0, 0, -2, -0.00007},
  {1, -3, 1, -1, 1, 0.00002},
  {1, -3, 1, 0, 1, -0.00029},
  {1, -3, 1, 1, 1, 0.00002},
  {1, -2, -1, -2, 0, 0.00003},
  {1, -2, -1, -1, 0, 0.00007},
  {1, -2, 1, -1, 0, 0.00048},
  {1, -2, 1, 0, 0, -0.00673},
  {1, -2, 1, 1, 0, 0.00043},
  {1, -1, -1, -1, 1, 0.00002},
  {1, -1, -1, 0, 1, -0.00021},
  {1, -1, -1, 1, 1, 0.00000},
  {1, -1, 0, 0, 0, 0.00020},
  {1, -1, 1, 0, -1, 0.00005},
  {1, 0, -1, -2, 0, -0.00003},
  {1, 0, -1, -1, 0, 0.00231},
  {1, 0, -1, 0, 0, -0.03518},
  {1, 0, -1, 1, 0, 0.00228},
  {1, 0, 1, 0, 0, 0.00189},
  {1, 0, 1, 1, 0, 0.00077},
  {1, 0, 1, 2, 0, 0.00021},
  {1, 1, -1, 0, -1, 0.00018},
  {1, 2, -1, 0, 0, 0.00049},
  {1, 2, -1, 1, 0, 0.00024},
  {1, 2, -1, 2, 0, 0.00004},
  {1, 3, -1, 0, -1, 0.00003},
  {2, -4, 2, 0, 0, -0.00011},
  {2, -3, 0, 0, 1, -0.00038},
  {2, -3, 0, 1, 1, 0.00002},
  {2, -2, 0, -1, 0, -0.00042},
  {2, -2, 0, 0, 0, -0.00582},
  {2, -2, 0, 1, 0, 0.00037},
  {2, -2, 2, 0, 0, 0.00004},
  {2, -1, -2, 0, 1, -0.00004},
  {2, -1, -1, 0, 0, 0.00003},
  {2, -1, 0, 0, -1, 0.00007},
  {2, -1, 0, 0, 1, -0.00020},
  {2, -1, 0, 1, 1, -0.00004},
  {2, 0, -2, -1, 0, 0.00015},
  {2, 0, -2, 0, 0, -0.00288},
  {2, 0, -2, 1, 0, 0.00019},
  {2, 0, 0, 0, 0, -0.06662},
  {2, 0, 0, 1, 0, -0.02762},
  {2, 0, 0, 2, 0, -0.00258},
  {2, 0, 0, 3, 0, 0.00007},
  {2, 1, -2, 0, -1, 0.00003},
  {2, 1, 0, 0, -1, 0.00023},
  {2, 1, 0, 1, -1, 0.00006},
  {2, 2, -2, 0, 0, 0.00020},
  {2, 2, -2, 1, 0, 0.00008},
  {2, 2, 0, 2, 0, 0.00003},
  {3, -5, 1, 0, 1, -0.00002},
  {3, -4, 1, 0, 0, -0.00017},
  {3, -3, -1, 0, 1, -0.00007},
  {3, -3, 1, 0, 1, -0.00012},
  {3, -3, 1, 1, 1, -0.00004},
  {3, -2, -1, -1, 0, -0.00010},
  {3, -2, -1, 0, 0, -0.00091},
  {3, -2, -1, 1, 0, 0.00006},
  {3, -2, 1, 0, 0, -0.00242},
  {3, -2, 1, 1, 0, -0.00100},
  {3, -2, 1, 2, 0, -0.00009},
  {3, -1, -1, 0, 1, -0.00013},
  {3, -1, -1, 1, 1, -0.00004},
  {3, -1, 0, 0, 0, 0.00006},
  {3, -1, 0, 1, 0, 0.00003},
  {3, -1, 1, 0, -1, 0.00003},
  {3, 0, -3, 0, 0, -0.00023},
  {3, 0, -3, 1, -1, 0.00004},
  {3, 0, -3, 1, 1, 0.00004},
  {3, 0, -1, 0, 0, -0.01275},
  {3, 0, -1, 1, 0, -0.00528},
  {3, 0, -1, 2, 0, -0.00051},
  {3, 0, 1, 2, 0, 0.00005},
  {3, 0, 1, 3, 0, 0.00002},
  {3, 1, -1, 0, -1, 0.00011},
  {3, 1, -1, 1, -1, 0.00004},
  {4, -4, 0, 0, 0, -0.00008},
  {4, -4, 2, 0, 0, -0.00006},
  {4, -4, 2, 1, 0, -0.00002},
  {4, -3, 0, 0, 1, -0.00014},
  {4, -3, 0, 1, 1, -0.00006},
  {4, -2, -2, 0, 0, -0.00011},
  {4, -2, 0, 0, 0, -0.00205},
  {4, -2, 0, 1, 0, -0.00085},
  {4, -2, 0, 2, 0, -0.00008},
  {4, -1, -2, 0, 1, -0.00003},
  {4, -1, 0, 0, -1, 0.00003},
  {4, 0, -2, 0, 0, -0.00169},
  {4, 0, -2, 1, 0, -0.00070},
  {4, 0, -2, 2, 0, -0.00006},
};
static const double kRefLpe3[17][6] = {
  {0, 0, 1, 0, 0, -0.00021},
  {0, 2, -1, 0, 0, -0.00004},
  {1, -2, 0, 0, 0, 0.00004},
  {1, 0, 0, -1, 0, 0.00019},
  {1, 0, 0, 0, 0, -0.00375},
  {1, 0, 0, 1, 0, -0.00059},
  {1, 0, 0, 2, 0, 0.00005},
  {2, -2, 1, 0, 0, -0.00012},
  {2, 0, -1, 0, 0, -0.00061},
  {2, 0, -1, 1, 0, -0.00010},
  {3, -2, 0, 0, 0, -0.00010},
  {3, 0, -2, 0, 0, -0.00007},
  {3, 0, 0, 0, 0, -0.00030},
  {3, 0, 0, 1, 0, -0.00019},
  {3, 0, 0, 2, 0, -0.00004},
  {4, 0, -1, 0, 0, -0.00008},
  {4, 0, -1, 1, 0, -0.00005},
};
