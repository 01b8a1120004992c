// BOUNDS: every makeVector arity 1..30 and Data arity 1..100 (double, and one other precision); all values symbolic
#include "hcommon.h"
template<int N> struct Vals { double v[N]; Vals() { for (int i = 0; i < N; i++) v[i] = vs_real("x"); } double operator[](int i) const { return v[i]; } };
template<int N> struct FVals { float v[N]; FVals() { for (int i = 0; i < N; i++) v[i] = vs_float("x"); } const float& operator[](int i) const { return v[i]; } };
template<int N> struct IVals { int v[N]; IVals() { for (int i = 0; i < N; i++) v[i] = vs_int("x", -1000, 1000); } const int& operator[](int i) const { return v[i]; } };
template<class V, class E> static void same(const V& v, const E& e, int n) { vs_eqi(v.size(), n, "size"); for (int i = 0; i < n; i++) vs_eq(v[i], e[i], "values in order", 0); }
template<class V, class E> static void samei(const V& v, const E& e, int n) { vs_eqi(v.size(), n, "size"); for (int i = 0; i < n; i++) vs_eqi(v[i], e[i], "values in order"); }
H(h_mk1) { { Vals<1> e; Vector<1> v = makeVector(e[0]); same(v, e, 1); } { FVals<1> e; Vector<1, float> v = makeVector(e[0]); same(v, e, 1); } { IVals<1> e; Vector<1, int> v = makeVector(e[0]); samei(v, e, 1); } }
H(h_mk2) { { Vals<2> e; Vector<2> v = makeVector(e[0], e[1]); same(v, e, 2); } { FVals<2> e; Vector<2, float> v = makeVector(e[0], e[1]); same(v, e, 2); } { IVals<2> e; Vector<2, int> v = makeVector(e[0], e[1]); samei(v, e, 2); } }
H(h_mk3) { { Vals<3> e; Vector<3> v = makeVector(e[0], e[1], e[2]); same(v, e, 3); } { FVals<3> e; Vector<3, float> v = makeVector(e[0], e[1], e[2]); same(v, e, 3); } { IVals<3> e; Vector<3, int> v = makeVector(e[0], e[1], e[2]); samei(v, e, 3); } }
H(h_mk4) { { Vals<4> e; Vector<4> v = makeVector(e[0], e[1], e[2], e[3]); same(v, e, 4); } { FVals<4> e; Vector<4, float> v = makeVector(e[0], e[1], e[2], e[3]); same(v, e, 4); } { IVals<4> e; Vector<4, int> v = makeVector(e[0], e[1], e[2], e[3]); samei(v, e, 4); } }
H(h_mk5) { { Vals<5> e; Vector<5> v = makeVector(e[0], e[1], e[2], e[3], e[4]); same(v, e, 5); } { FVals<5> e; Vector<5, float> v = makeVector(e[0], e[1], e[2], e[3], e[4]); same(v, e, 5); } { IVals<5> e; Vector<5, int> v = makeVector(e[0], e[1], e[2], e[3], e[4]); samei(v, e, 5); } }
H(h_mk6) { { Vals<6> e; Vector<6> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5]); same(v, e, 6); } { FVals<6> e; Vector<6, float> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5]); same(v, e, 6); } { IVals<6> e; Vector<6, int> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5]); samei(v, e, 6); } }
H(h_mk7) { { Vals<7> e; Vector<7> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6]); same(v, e, 7); } { FVals<7> e; Vector<7, float> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6]); same(v, e, 7); } { IVals<7> e; Vector<7, int> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6]); samei(v, e, 7); } }
H(h_mk8) { { Vals<8> e; Vector<8> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7]); same(v, e, 8); } { FVals<8> e; Vector<8, float> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7]); same(v, e, 8); } { IVals<8> e; Vector<8, int> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7]); samei(v, e, 8); } }
H(h_mk9) { { Vals<9> e; Vector<9> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8]); same(v, e, 9); } { FVals<9> e; Vector<9, float> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8]); same(v, e, 9); } { IVals<9> e; Vector<9, int> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8]); samei(v, e, 9); } }
H(h_mk10) { { Vals<10> e; Vector<10> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9]); same(v, e, 10); } { FVals<10> e; Vector<10, float> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9]); same(v, e, 10); } { IVals<10> e; Vector<10, int> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9]); samei(v, e, 10); } }
H(h_mk11) { { Vals<11> e; Vector<11> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10]); same(v, e, 11); } { FVals<11> e; Vector<11, float> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10]); same(v, e, 11); } { IVals<11> e; Vector<11, int> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10]); samei(v, e, 11); } }
H(h_mk12) { { Vals<12> e; Vector<12> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11]); same(v, e, 12); } { FVals<12> e; Vector<12, float> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11]); same(v, e, 12); } { IVals<12> e; Vector<12, int> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11]); samei(v, e, 12); } }
H(h_mk13) { { Vals<13> e; Vector<13> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12]); same(v, e, 13); } { FVals<13> e; Vector<13, float> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12]); same(v, e, 13); } { IVals<13> e; Vector<13, int> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12]); samei(v, e, 13); } }
H(h_mk14) { { Vals<14> e; Vector<14> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13]); same(v, e, 14); } { FVals<14> e; Vector<14, float> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13]); same(v, e, 14); } { IVals<14> e; Vector<14, int> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13]); samei(v, e, 14); } }
H(h_mk15) { { Vals<15> e; Vector<15> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14]); same(v, e, 15); } { FVals<15> e; Vector<15, float> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14]); same(v, e, 15); } { IVals<15> e; Vector<15, int> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14]); samei(v, e, 15); } }
H(h_mk16) { { Vals<16> e; Vector<16> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15]); same(v, e, 16); } { FVals<16> e; Vector<16, float> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15]); same(v, e, 16); } { IVals<16> e; Vector<16, int> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15]); samei(v, e, 16); } }
H(h_mk17) { { Vals<17> e; Vector<17> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16]); same(v, e, 17); } { FVals<17> e; Vector<17, float> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16]); same(v, e, 17); } { IVals<17> e; Vector<17, int> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16]); samei(v, e, 17); } }
H(h_mk18) { { Vals<18> e; Vector<18> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17]); same(v, e, 18); } { FVals<18> e; Vector<18, float> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17]); same(v, e, 18); } { IVals<18> e; Vector<18, int> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17]); samei(v, e, 18); } }
H(h_mk19) { { Vals<19> e; Vector<19> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18]); same(v, e, 19); } { FVals<19> e; Vector<19, float> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18]); same(v, e, 19); } { IVals<19> e; Vector<19, int> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18]); samei(v, e, 19); } }
H(h_mk20) { { Vals<20> e; Vector<20> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19]); same(v, e, 20); } { FVals<20> e; Vector<20, float> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19]); same(v, e, 20); } { IVals<20> e; Vector<20, int> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19]); samei(v, e, 20); } }
H(h_mk21) { { Vals<21> e; Vector<21> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20]); same(v, e, 21); } { FVals<21> e; Vector<21, float> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20]); same(v, e, 21); } { IVals<21> e; Vector<21, int> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20]); samei(v, e, 21); } }
H(h_mk22) { { Vals<22> e; Vector<22> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21]); same(v, e, 22); } { FVals<22> e; Vector<22, float> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21]); same(v, e, 22); } { IVals<22> e; Vector<22, int> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21]); samei(v, e, 22); } }
H(h_mk23) { { Vals<23> e; Vector<23> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22]); same(v, e, 23); } { FVals<23> e; Vector<23, float> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22]); same(v, e, 23); } { IVals<23> e; Vector<23, int> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22]); samei(v, e, 23); } }
H(h_mk24) { { Vals<24> e; Vector<24> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23]); same(v, e, 24); } { FVals<24> e; Vector<24, float> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23]); same(v, e, 24); } { IVals<24> e; Vector<24, int> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23]); samei(v, e, 24); } }
H(h_mk25) { { Vals<25> e; Vector<25> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24]); same(v, e, 25); } { FVals<25> e; Vector<25, float> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24]); same(v, e, 25); } { IVals<25> e; Vector<25, int> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24]); samei(v, e, 25); } }
H(h_mk26) { { Vals<26> e; Vector<26> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25]); same(v, e, 26); } { FVals<26> e; Vector<26, float> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25]); same(v, e, 26); } { IVals<26> e; Vector<26, int> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25]); samei(v, e, 26); } }
H(h_mk27) { { Vals<27> e; Vector<27> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26]); same(v, e, 27); } { FVals<27> e; Vector<27, float> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26]); same(v, e, 27); } { IVals<27> e; Vector<27, int> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26]); samei(v, e, 27); } }
H(h_mk28) { { Vals<28> e; Vector<28> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27]); same(v, e, 28); } { FVals<28> e; Vector<28, float> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27]); same(v, e, 28); } { IVals<28> e; Vector<28, int> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27]); samei(v, e, 28); } }
H(h_mk29) { { Vals<29> e; Vector<29> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28]); same(v, e, 29); } { FVals<29> e; Vector<29, float> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28]); same(v, e, 29); } { IVals<29> e; Vector<29, int> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28]); samei(v, e, 29); } }
H(h_mk30) { { Vals<30> e; Vector<30> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29]); same(v, e, 30); } { FVals<30> e; Vector<30, float> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29]); same(v, e, 30); } { IVals<30> e; Vector<30, int> v = makeVector(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29]); samei(v, e, 30); } }
H(h_data1) { { Vals<1> e; Vector<1> v = Data(e[0]); same(v, e, 1); Matrix<1, 1> m(Data(e[0])); for (int i = 0; i < 1; i++) for (int j = 0; j < 1; j++) vs_eq(m[i][j], e[i * 1 + j], "matrix values in row-major order", 0); } { FVals<1> e; Vector<1, float> v(Data(e[0])); same(v, e, 1); } }
H(h_data2) { { Vals<2> e; Vector<2> v = Data(e[0], e[1]); same(v, e, 2); Matrix<2, 1> m(Data(e[0], e[1])); for (int i = 0; i < 2; i++) for (int j = 0; j < 1; j++) vs_eq(m[i][j], e[i * 1 + j], "matrix values in row-major order", 0); } { FVals<2> e; Vector<2, float> v(Data(e[0], e[1])); same(v, e, 2); } }
H(h_data3) { { Vals<3> e; Vector<3> v = Data(e[0], e[1], e[2]); same(v, e, 3); Matrix<3, 1> m(Data(e[0], e[1], e[2])); for (int i = 0; i < 3; i++) for (int j = 0; j < 1; j++) vs_eq(m[i][j], e[i * 1 + j], "matrix values in row-major order", 0); } { FVals<3> e; Vector<3, float> v(Data(e[0], e[1], e[2])); same(v, e, 3); } }
H(h_data4) { { Vals<4> e; Vector<4> v = Data(e[0], e[1], e[2], e[3]); same(v, e, 4); Matrix<2, 2> m(Data(e[0], e[1], e[2], e[3])); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) vs_eq(m[i][j], e[i * 2 + j], "matrix values in row-major order", 0); } { FVals<4> e; Vector<4, float> v(Data(e[0], e[1], e[2], e[3])); same(v, e, 4); } }
H(h_data5) { { Vals<5> e; Vector<5> v = Data(e[0], e[1], e[2], e[3], e[4]); same(v, e, 5); Matrix<5, 1> m(Data(e[0], e[1], e[2], e[3], e[4])); for (int i = 0; i < 5; i++) for (int j = 0; j < 1; j++) vs_eq(m[i][j], e[i * 1 + j], "matrix values in row-major order", 0); } { FVals<5> e; Vector<5, float> v(Data(e[0], e[1], e[2], e[3], e[4])); same(v, e, 5); } }
H(h_data6) { { Vals<6> e; Vector<6> v = Data(e[0], e[1], e[2], e[3], e[4], e[5]); same(v, e, 6); Matrix<2, 3> m(Data(e[0], e[1], e[2], e[3], e[4], e[5])); for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) vs_eq(m[i][j], e[i * 3 + j], "matrix values in row-major order", 0); } { FVals<6> e; Vector<6, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5])); same(v, e, 6); } }
H(h_data7) { { Vals<7> e; Vector<7> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6]); same(v, e, 7); Matrix<7, 1> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6])); for (int i = 0; i < 7; i++) for (int j = 0; j < 1; j++) vs_eq(m[i][j], e[i * 1 + j], "matrix values in row-major order", 0); } { FVals<7> e; Vector<7, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6])); same(v, e, 7); } }
H(h_data8) { { Vals<8> e; Vector<8> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7]); same(v, e, 8); Matrix<2, 4> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7])); for (int i = 0; i < 2; i++) for (int j = 0; j < 4; j++) vs_eq(m[i][j], e[i * 4 + j], "matrix values in row-major order", 0); } { FVals<8> e; Vector<8, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7])); same(v, e, 8); } }
H(h_data9) { { Vals<9> e; Vector<9> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8]); same(v, e, 9); Matrix<3, 3> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8])); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) vs_eq(m[i][j], e[i * 3 + j], "matrix values in row-major order", 0); } { FVals<9> e; Vector<9, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8])); same(v, e, 9); } }
H(h_data10) { { Vals<10> e; Vector<10> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9]); same(v, e, 10); Matrix<2, 5> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9])); for (int i = 0; i < 2; i++) for (int j = 0; j < 5; j++) vs_eq(m[i][j], e[i * 5 + j], "matrix values in row-major order", 0); } { FVals<10> e; Vector<10, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9])); same(v, e, 10); } }
H(h_data11) { { Vals<11> e; Vector<11> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10]); same(v, e, 11); Matrix<1, 11> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10])); for (int i = 0; i < 1; i++) for (int j = 0; j < 11; j++) vs_eq(m[i][j], e[i * 11 + j], "matrix values in row-major order", 0); } { FVals<11> e; Vector<11, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10])); same(v, e, 11); } }
H(h_data12) { { Vals<12> e; Vector<12> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11]); same(v, e, 12); Matrix<2, 6> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11])); for (int i = 0; i < 2; i++) for (int j = 0; j < 6; j++) vs_eq(m[i][j], e[i * 6 + j], "matrix values in row-major order", 0); } { FVals<12> e; Vector<12, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11])); same(v, e, 12); } }
H(h_data13) { { Vals<13> e; Vector<13> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12]); same(v, e, 13); Matrix<1, 13> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12])); for (int i = 0; i < 1; i++) for (int j = 0; j < 13; j++) vs_eq(m[i][j], e[i * 13 + j], "matrix values in row-major order", 0); } { FVals<13> e; Vector<13, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12])); same(v, e, 13); } }
H(h_data14) { { Vals<14> e; Vector<14> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13]); same(v, e, 14); Matrix<2, 7> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13])); for (int i = 0; i < 2; i++) for (int j = 0; j < 7; j++) vs_eq(m[i][j], e[i * 7 + j], "matrix values in row-major order", 0); } { FVals<14> e; Vector<14, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13])); same(v, e, 14); } }
H(h_data15) { { Vals<15> e; Vector<15> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14]); same(v, e, 15); Matrix<3, 5> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14])); for (int i = 0; i < 3; i++) for (int j = 0; j < 5; j++) vs_eq(m[i][j], e[i * 5 + j], "matrix values in row-major order", 0); } { FVals<15> e; Vector<15, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14])); same(v, e, 15); } }
H(h_data16) { { Vals<16> e; Vector<16> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15]); same(v, e, 16); Matrix<2, 8> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15])); for (int i = 0; i < 2; i++) for (int j = 0; j < 8; j++) vs_eq(m[i][j], e[i * 8 + j], "matrix values in row-major order", 0); } { FVals<16> e; Vector<16, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15])); same(v, e, 16); } }
H(h_data17) { { Vals<17> e; Vector<17> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16]); same(v, e, 17); Matrix<1, 17> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16])); for (int i = 0; i < 1; i++) for (int j = 0; j < 17; j++) vs_eq(m[i][j], e[i * 17 + j], "matrix values in row-major order", 0); } { FVals<17> e; Vector<17, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16])); same(v, e, 17); } }
H(h_data18) { { Vals<18> e; Vector<18> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17]); same(v, e, 18); Matrix<2, 9> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17])); for (int i = 0; i < 2; i++) for (int j = 0; j < 9; j++) vs_eq(m[i][j], e[i * 9 + j], "matrix values in row-major order", 0); } { FVals<18> e; Vector<18, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17])); same(v, e, 18); } }
H(h_data19) { { Vals<19> e; Vector<19> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18]); same(v, e, 19); Matrix<1, 19> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18])); for (int i = 0; i < 1; i++) for (int j = 0; j < 19; j++) vs_eq(m[i][j], e[i * 19 + j], "matrix values in row-major order", 0); } { FVals<19> e; Vector<19, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18])); same(v, e, 19); } }
H(h_data20) { { Vals<20> e; Vector<20> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19]); same(v, e, 20); Matrix<2, 10> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19])); for (int i = 0; i < 2; i++) for (int j = 0; j < 10; j++) vs_eq(m[i][j], e[i * 10 + j], "matrix values in row-major order", 0); } { FVals<20> e; Vector<20, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19])); same(v, e, 20); } }
H(h_data21) { { Vals<21> e; Vector<21> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20]); same(v, e, 21); Matrix<3, 7> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20])); for (int i = 0; i < 3; i++) for (int j = 0; j < 7; j++) vs_eq(m[i][j], e[i * 7 + j], "matrix values in row-major order", 0); } { FVals<21> e; Vector<21, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20])); same(v, e, 21); } }
H(h_data22) { { Vals<22> e; Vector<22> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21]); same(v, e, 22); Matrix<2, 11> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21])); for (int i = 0; i < 2; i++) for (int j = 0; j < 11; j++) vs_eq(m[i][j], e[i * 11 + j], "matrix values in row-major order", 0); } { FVals<22> e; Vector<22, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21])); same(v, e, 22); } }
H(h_data23) { { Vals<23> e; Vector<23> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22]); same(v, e, 23); Matrix<1, 23> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22])); for (int i = 0; i < 1; i++) for (int j = 0; j < 23; j++) vs_eq(m[i][j], e[i * 23 + j], "matrix values in row-major order", 0); } { FVals<23> e; Vector<23, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22])); same(v, e, 23); } }
H(h_data24) { { Vals<24> e; Vector<24> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23]); same(v, e, 24); Matrix<2, 12> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23])); for (int i = 0; i < 2; i++) for (int j = 0; j < 12; j++) vs_eq(m[i][j], e[i * 12 + j], "matrix values in row-major order", 0); } { FVals<24> e; Vector<24, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23])); same(v, e, 24); } }
H(h_data25) { { Vals<25> e; Vector<25> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24]); same(v, e, 25); Matrix<5, 5> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24])); for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) vs_eq(m[i][j], e[i * 5 + j], "matrix values in row-major order", 0); } { FVals<25> e; Vector<25, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24])); same(v, e, 25); } }
H(h_data26) { { Vals<26> e; Vector<26> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25]); same(v, e, 26); Matrix<2, 13> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25])); for (int i = 0; i < 2; i++) for (int j = 0; j < 13; j++) vs_eq(m[i][j], e[i * 13 + j], "matrix values in row-major order", 0); } { FVals<26> e; Vector<26, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25])); same(v, e, 26); } }
H(h_data27) { { Vals<27> e; Vector<27> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26]); same(v, e, 27); Matrix<3, 9> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26])); for (int i = 0; i < 3; i++) for (int j = 0; j < 9; j++) vs_eq(m[i][j], e[i * 9 + j], "matrix values in row-major order", 0); } { FVals<27> e; Vector<27, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26])); same(v, e, 27); } }
H(h_data28) { { Vals<28> e; Vector<28> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27]); same(v, e, 28); Matrix<2, 14> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27])); for (int i = 0; i < 2; i++) for (int j = 0; j < 14; j++) vs_eq(m[i][j], e[i * 14 + j], "matrix values in row-major order", 0); } { FVals<28> e; Vector<28, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27])); same(v, e, 28); } }
H(h_data29) { { Vals<29> e; Vector<29> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28]); same(v, e, 29); Matrix<1, 29> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28])); for (int i = 0; i < 1; i++) for (int j = 0; j < 29; j++) vs_eq(m[i][j], e[i * 29 + j], "matrix values in row-major order", 0); } { FVals<29> e; Vector<29, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28])); same(v, e, 29); } }
H(h_data30) { { Vals<30> e; Vector<30> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29]); same(v, e, 30); Matrix<2, 15> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29])); for (int i = 0; i < 2; i++) for (int j = 0; j < 15; j++) vs_eq(m[i][j], e[i * 15 + j], "matrix values in row-major order", 0); } { FVals<30> e; Vector<30, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29])); same(v, e, 30); } }
H(h_data31) { { Vals<31> e; Vector<31> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30]); same(v, e, 31); Matrix<1, 31> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30])); for (int i = 0; i < 1; i++) for (int j = 0; j < 31; j++) vs_eq(m[i][j], e[i * 31 + j], "matrix values in row-major order", 0); } { FVals<31> e; Vector<31, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30])); same(v, e, 31); } }
H(h_data32) { { Vals<32> e; Vector<32> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31]); same(v, e, 32); Matrix<2, 16> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31])); for (int i = 0; i < 2; i++) for (int j = 0; j < 16; j++) vs_eq(m[i][j], e[i * 16 + j], "matrix values in row-major order", 0); } { FVals<32> e; Vector<32, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31])); same(v, e, 32); } }
H(h_data33) { { Vals<33> e; Vector<33> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32]); same(v, e, 33); Matrix<3, 11> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32])); for (int i = 0; i < 3; i++) for (int j = 0; j < 11; j++) vs_eq(m[i][j], e[i * 11 + j], "matrix values in row-major order", 0); } { FVals<33> e; Vector<33, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32])); same(v, e, 33); } }
H(h_data34) { { Vals<34> e; Vector<34> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33]); same(v, e, 34); Matrix<2, 17> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33])); for (int i = 0; i < 2; i++) for (int j = 0; j < 17; j++) vs_eq(m[i][j], e[i * 17 + j], "matrix values in row-major order", 0); } { FVals<34> e; Vector<34, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33])); same(v, e, 34); } }
H(h_data35) { { Vals<35> e; Vector<35> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34]); same(v, e, 35); Matrix<5, 7> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34])); for (int i = 0; i < 5; i++) for (int j = 0; j < 7; j++) vs_eq(m[i][j], e[i * 7 + j], "matrix values in row-major order", 0); } { FVals<35> e; Vector<35, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34])); same(v, e, 35); } }
H(h_data36) { { Vals<36> e; Vector<36> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35]); same(v, e, 36); Matrix<2, 18> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35])); for (int i = 0; i < 2; i++) for (int j = 0; j < 18; j++) vs_eq(m[i][j], e[i * 18 + j], "matrix values in row-major order", 0); } { FVals<36> e; Vector<36, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35])); same(v, e, 36); } }
H(h_data37) { { Vals<37> e; Vector<37> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36]); same(v, e, 37); Matrix<1, 37> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36])); for (int i = 0; i < 1; i++) for (int j = 0; j < 37; j++) vs_eq(m[i][j], e[i * 37 + j], "matrix values in row-major order", 0); } { FVals<37> e; Vector<37, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36])); same(v, e, 37); } }
H(h_data38) { { Vals<38> e; Vector<38> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37]); same(v, e, 38); Matrix<2, 19> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37])); for (int i = 0; i < 2; i++) for (int j = 0; j < 19; j++) vs_eq(m[i][j], e[i * 19 + j], "matrix values in row-major order", 0); } { FVals<38> e; Vector<38, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37])); same(v, e, 38); } }
H(h_data39) { { Vals<39> e; Vector<39> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38]); same(v, e, 39); Matrix<3, 13> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38])); for (int i = 0; i < 3; i++) for (int j = 0; j < 13; j++) vs_eq(m[i][j], e[i * 13 + j], "matrix values in row-major order", 0); } { FVals<39> e; Vector<39, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38])); same(v, e, 39); } }
H(h_data40) { { Vals<40> e; Vector<40> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39]); same(v, e, 40); Matrix<2, 20> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39])); for (int i = 0; i < 2; i++) for (int j = 0; j < 20; j++) vs_eq(m[i][j], e[i * 20 + j], "matrix values in row-major order", 0); } { FVals<40> e; Vector<40, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39])); same(v, e, 40); } }
H(h_data41) { { Vals<41> e; Vector<41> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40]); same(v, e, 41); Matrix<1, 41> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40])); for (int i = 0; i < 1; i++) for (int j = 0; j < 41; j++) vs_eq(m[i][j], e[i * 41 + j], "matrix values in row-major order", 0); } { FVals<41> e; Vector<41, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40])); same(v, e, 41); } }
H(h_data42) { { Vals<42> e; Vector<42> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41]); same(v, e, 42); Matrix<2, 21> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41])); for (int i = 0; i < 2; i++) for (int j = 0; j < 21; j++) vs_eq(m[i][j], e[i * 21 + j], "matrix values in row-major order", 0); } { FVals<42> e; Vector<42, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41])); same(v, e, 42); } }
H(h_data43) { { Vals<43> e; Vector<43> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42]); same(v, e, 43); Matrix<1, 43> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42])); for (int i = 0; i < 1; i++) for (int j = 0; j < 43; j++) vs_eq(m[i][j], e[i * 43 + j], "matrix values in row-major order", 0); } { FVals<43> e; Vector<43, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42])); same(v, e, 43); } }
H(h_data44) { { Vals<44> e; Vector<44> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43]); same(v, e, 44); Matrix<2, 22> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43])); for (int i = 0; i < 2; i++) for (int j = 0; j < 22; j++) vs_eq(m[i][j], e[i * 22 + j], "matrix values in row-major order", 0); } { FVals<44> e; Vector<44, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43])); same(v, e, 44); } }
H(h_data45) { { Vals<45> e; Vector<45> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44]); same(v, e, 45); Matrix<3, 15> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44])); for (int i = 0; i < 3; i++) for (int j = 0; j < 15; j++) vs_eq(m[i][j], e[i * 15 + j], "matrix values in row-major order", 0); } { FVals<45> e; Vector<45, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44])); same(v, e, 45); } }
H(h_data46) { { Vals<46> e; Vector<46> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45]); same(v, e, 46); Matrix<2, 23> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45])); for (int i = 0; i < 2; i++) for (int j = 0; j < 23; j++) vs_eq(m[i][j], e[i * 23 + j], "matrix values in row-major order", 0); } { FVals<46> e; Vector<46, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45])); same(v, e, 46); } }
H(h_data47) { { Vals<47> e; Vector<47> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46]); same(v, e, 47); Matrix<1, 47> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46])); for (int i = 0; i < 1; i++) for (int j = 0; j < 47; j++) vs_eq(m[i][j], e[i * 47 + j], "matrix values in row-major order", 0); } { FVals<47> e; Vector<47, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46])); same(v, e, 47); } }
H(h_data48) { { Vals<48> e; Vector<48> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47]); same(v, e, 48); Matrix<2, 24> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47])); for (int i = 0; i < 2; i++) for (int j = 0; j < 24; j++) vs_eq(m[i][j], e[i * 24 + j], "matrix values in row-major order", 0); } { FVals<48> e; Vector<48, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47])); same(v, e, 48); } }
H(h_data49) { { Vals<49> e; Vector<49> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48]); same(v, e, 49); Matrix<7, 7> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48])); for (int i = 0; i < 7; i++) for (int j = 0; j < 7; j++) vs_eq(m[i][j], e[i * 7 + j], "matrix values in row-major order", 0); } { FVals<49> e; Vector<49, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48])); same(v, e, 49); } }
H(h_data50) { { Vals<50> e; Vector<50> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49]); same(v, e, 50); Matrix<2, 25> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49])); for (int i = 0; i < 2; i++) for (int j = 0; j < 25; j++) vs_eq(m[i][j], e[i * 25 + j], "matrix values in row-major order", 0); } { FVals<50> e; Vector<50, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49])); same(v, e, 50); } }
H(h_data51) { { Vals<51> e; Vector<51> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50]); same(v, e, 51); Matrix<3, 17> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50])); for (int i = 0; i < 3; i++) for (int j = 0; j < 17; j++) vs_eq(m[i][j], e[i * 17 + j], "matrix values in row-major order", 0); } { FVals<51> e; Vector<51, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50])); same(v, e, 51); } }
H(h_data52) { { Vals<52> e; Vector<52> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51]); same(v, e, 52); Matrix<2, 26> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51])); for (int i = 0; i < 2; i++) for (int j = 0; j < 26; j++) vs_eq(m[i][j], e[i * 26 + j], "matrix values in row-major order", 0); } { FVals<52> e; Vector<52, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51])); same(v, e, 52); } }
H(h_data53) { { Vals<53> e; Vector<53> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52]); same(v, e, 53); Matrix<1, 53> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52])); for (int i = 0; i < 1; i++) for (int j = 0; j < 53; j++) vs_eq(m[i][j], e[i * 53 + j], "matrix values in row-major order", 0); } { FVals<53> e; Vector<53, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52])); same(v, e, 53); } }
H(h_data54) { { Vals<54> e; Vector<54> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53]); same(v, e, 54); Matrix<2, 27> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53])); for (int i = 0; i < 2; i++) for (int j = 0; j < 27; j++) vs_eq(m[i][j], e[i * 27 + j], "matrix values in row-major order", 0); } { FVals<54> e; Vector<54, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53])); same(v, e, 54); } }
H(h_data55) { { Vals<55> e; Vector<55> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54]); same(v, e, 55); Matrix<5, 11> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54])); for (int i = 0; i < 5; i++) for (int j = 0; j < 11; j++) vs_eq(m[i][j], e[i * 11 + j], "matrix values in row-major order", 0); } { FVals<55> e; Vector<55, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54])); same(v, e, 55); } }
H(h_data56) { { Vals<56> e; Vector<56> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55]); same(v, e, 56); Matrix<2, 28> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55])); for (int i = 0; i < 2; i++) for (int j = 0; j < 28; j++) vs_eq(m[i][j], e[i * 28 + j], "matrix values in row-major order", 0); } { FVals<56> e; Vector<56, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55])); same(v, e, 56); } }
H(h_data57) { { Vals<57> e; Vector<57> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56]); same(v, e, 57); Matrix<3, 19> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56])); for (int i = 0; i < 3; i++) for (int j = 0; j < 19; j++) vs_eq(m[i][j], e[i * 19 + j], "matrix values in row-major order", 0); } { FVals<57> e; Vector<57, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56])); same(v, e, 57); } }
H(h_data58) { { Vals<58> e; Vector<58> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57]); same(v, e, 58); Matrix<2, 29> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57])); for (int i = 0; i < 2; i++) for (int j = 0; j < 29; j++) vs_eq(m[i][j], e[i * 29 + j], "matrix values in row-major order", 0); } { FVals<58> e; Vector<58, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57])); same(v, e, 58); } }
H(h_data59) { { Vals<59> e; Vector<59> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58]); same(v, e, 59); Matrix<1, 59> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58])); for (int i = 0; i < 1; i++) for (int j = 0; j < 59; j++) vs_eq(m[i][j], e[i * 59 + j], "matrix values in row-major order", 0); } { FVals<59> e; Vector<59, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58])); same(v, e, 59); } }
H(h_data60) { { Vals<60> e; Vector<60> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59]); same(v, e, 60); Matrix<2, 30> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59])); for (int i = 0; i < 2; i++) for (int j = 0; j < 30; j++) vs_eq(m[i][j], e[i * 30 + j], "matrix values in row-major order", 0); } { FVals<60> e; Vector<60, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59])); same(v, e, 60); } }
H(h_data61) { { Vals<61> e; Vector<61> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60]); same(v, e, 61); Matrix<1, 61> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60])); for (int i = 0; i < 1; i++) for (int j = 0; j < 61; j++) vs_eq(m[i][j], e[i * 61 + j], "matrix values in row-major order", 0); } { FVals<61> e; Vector<61, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60])); same(v, e, 61); } }
H(h_data62) { { Vals<62> e; Vector<62> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61]); same(v, e, 62); Matrix<2, 31> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61])); for (int i = 0; i < 2; i++) for (int j = 0; j < 31; j++) vs_eq(m[i][j], e[i * 31 + j], "matrix values in row-major order", 0); } { FVals<62> e; Vector<62, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61])); same(v, e, 62); } }
H(h_data63) { { Vals<63> e; Vector<63> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62]); same(v, e, 63); Matrix<3, 21> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62])); for (int i = 0; i < 3; i++) for (int j = 0; j < 21; j++) vs_eq(m[i][j], e[i * 21 + j], "matrix values in row-major order", 0); } { FVals<63> e; Vector<63, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62])); same(v, e, 63); } }
H(h_data64) { { Vals<64> e; Vector<64> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63]); same(v, e, 64); Matrix<2, 32> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63])); for (int i = 0; i < 2; i++) for (int j = 0; j < 32; j++) vs_eq(m[i][j], e[i * 32 + j], "matrix values in row-major order", 0); } { FVals<64> e; Vector<64, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63])); same(v, e, 64); } }
H(h_data65) { { Vals<65> e; Vector<65> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64]); same(v, e, 65); Matrix<5, 13> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64])); for (int i = 0; i < 5; i++) for (int j = 0; j < 13; j++) vs_eq(m[i][j], e[i * 13 + j], "matrix values in row-major order", 0); } { FVals<65> e; Vector<65, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64])); same(v, e, 65); } }
H(h_data66) { { Vals<66> e; Vector<66> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65]); same(v, e, 66); Matrix<2, 33> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65])); for (int i = 0; i < 2; i++) for (int j = 0; j < 33; j++) vs_eq(m[i][j], e[i * 33 + j], "matrix values in row-major order", 0); } { FVals<66> e; Vector<66, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65])); same(v, e, 66); } }
H(h_data67) { { Vals<67> e; Vector<67> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66]); same(v, e, 67); Matrix<1, 67> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66])); for (int i = 0; i < 1; i++) for (int j = 0; j < 67; j++) vs_eq(m[i][j], e[i * 67 + j], "matrix values in row-major order", 0); } { FVals<67> e; Vector<67, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66])); same(v, e, 67); } }
H(h_data68) { { Vals<68> e; Vector<68> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67]); same(v, e, 68); Matrix<2, 34> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67])); for (int i = 0; i < 2; i++) for (int j = 0; j < 34; j++) vs_eq(m[i][j], e[i * 34 + j], "matrix values in row-major order", 0); } { FVals<68> e; Vector<68, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67])); same(v, e, 68); } }
H(h_data69) { { Vals<69> e; Vector<69> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68]); same(v, e, 69); Matrix<3, 23> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68])); for (int i = 0; i < 3; i++) for (int j = 0; j < 23; j++) vs_eq(m[i][j], e[i * 23 + j], "matrix values in row-major order", 0); } { FVals<69> e; Vector<69, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68])); same(v, e, 69); } }
H(h_data70) { { Vals<70> e; Vector<70> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69]); same(v, e, 70); Matrix<2, 35> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69])); for (int i = 0; i < 2; i++) for (int j = 0; j < 35; j++) vs_eq(m[i][j], e[i * 35 + j], "matrix values in row-major order", 0); } { FVals<70> e; Vector<70, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69])); same(v, e, 70); } }
H(h_data71) { { Vals<71> e; Vector<71> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70]); same(v, e, 71); Matrix<1, 71> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70])); for (int i = 0; i < 1; i++) for (int j = 0; j < 71; j++) vs_eq(m[i][j], e[i * 71 + j], "matrix values in row-major order", 0); } { FVals<71> e; Vector<71, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70])); same(v, e, 71); } }
H(h_data72) { { Vals<72> e; Vector<72> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71]); same(v, e, 72); Matrix<2, 36> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71])); for (int i = 0; i < 2; i++) for (int j = 0; j < 36; j++) vs_eq(m[i][j], e[i * 36 + j], "matrix values in row-major order", 0); } { FVals<72> e; Vector<72, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71])); same(v, e, 72); } }
H(h_data73) { { Vals<73> e; Vector<73> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72]); same(v, e, 73); Matrix<1, 73> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72])); for (int i = 0; i < 1; i++) for (int j = 0; j < 73; j++) vs_eq(m[i][j], e[i * 73 + j], "matrix values in row-major order", 0); } { FVals<73> e; Vector<73, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72])); same(v, e, 73); } }
H(h_data74) { { Vals<74> e; Vector<74> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73]); same(v, e, 74); Matrix<2, 37> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73])); for (int i = 0; i < 2; i++) for (int j = 0; j < 37; j++) vs_eq(m[i][j], e[i * 37 + j], "matrix values in row-major order", 0); } { FVals<74> e; Vector<74, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73])); same(v, e, 74); } }
H(h_data75) { { Vals<75> e; Vector<75> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74]); same(v, e, 75); Matrix<3, 25> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74])); for (int i = 0; i < 3; i++) for (int j = 0; j < 25; j++) vs_eq(m[i][j], e[i * 25 + j], "matrix values in row-major order", 0); } { FVals<75> e; Vector<75, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74])); same(v, e, 75); } }
H(h_data76) { { Vals<76> e; Vector<76> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75]); same(v, e, 76); Matrix<2, 38> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75])); for (int i = 0; i < 2; i++) for (int j = 0; j < 38; j++) vs_eq(m[i][j], e[i * 38 + j], "matrix values in row-major order", 0); } { FVals<76> e; Vector<76, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75])); same(v, e, 76); } }
H(h_data77) { { Vals<77> e; Vector<77> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76]); same(v, e, 77); Matrix<7, 11> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76])); for (int i = 0; i < 7; i++) for (int j = 0; j < 11; j++) vs_eq(m[i][j], e[i * 11 + j], "matrix values in row-major order", 0); } { FVals<77> e; Vector<77, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76])); same(v, e, 77); } }
H(h_data78) { { Vals<78> e; Vector<78> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77]); same(v, e, 78); Matrix<2, 39> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77])); for (int i = 0; i < 2; i++) for (int j = 0; j < 39; j++) vs_eq(m[i][j], e[i * 39 + j], "matrix values in row-major order", 0); } { FVals<78> e; Vector<78, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77])); same(v, e, 78); } }
H(h_data79) { { Vals<79> e; Vector<79> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78]); same(v, e, 79); Matrix<1, 79> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78])); for (int i = 0; i < 1; i++) for (int j = 0; j < 79; j++) vs_eq(m[i][j], e[i * 79 + j], "matrix values in row-major order", 0); } { FVals<79> e; Vector<79, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78])); same(v, e, 79); } }
H(h_data80) { { Vals<80> e; Vector<80> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79]); same(v, e, 80); Matrix<2, 40> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79])); for (int i = 0; i < 2; i++) for (int j = 0; j < 40; j++) vs_eq(m[i][j], e[i * 40 + j], "matrix values in row-major order", 0); } { FVals<80> e; Vector<80, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79])); same(v, e, 80); } }
H(h_data81) { { Vals<81> e; Vector<81> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80]); same(v, e, 81); Matrix<3, 27> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80])); for (int i = 0; i < 3; i++) for (int j = 0; j < 27; j++) vs_eq(m[i][j], e[i * 27 + j], "matrix values in row-major order", 0); } { FVals<81> e; Vector<81, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80])); same(v, e, 81); } }
H(h_data82) { { Vals<82> e; Vector<82> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81]); same(v, e, 82); Matrix<2, 41> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81])); for (int i = 0; i < 2; i++) for (int j = 0; j < 41; j++) vs_eq(m[i][j], e[i * 41 + j], "matrix values in row-major order", 0); } { FVals<82> e; Vector<82, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81])); same(v, e, 82); } }
H(h_data83) { { Vals<83> e; Vector<83> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82]); same(v, e, 83); Matrix<1, 83> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82])); for (int i = 0; i < 1; i++) for (int j = 0; j < 83; j++) vs_eq(m[i][j], e[i * 83 + j], "matrix values in row-major order", 0); } { FVals<83> e; Vector<83, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82])); same(v, e, 83); } }
H(h_data84) { { Vals<84> e; Vector<84> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83]); same(v, e, 84); Matrix<2, 42> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83])); for (int i = 0; i < 2; i++) for (int j = 0; j < 42; j++) vs_eq(m[i][j], e[i * 42 + j], "matrix values in row-major order", 0); } { FVals<84> e; Vector<84, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83])); same(v, e, 84); } }
H(h_data85) { { Vals<85> e; Vector<85> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84]); same(v, e, 85); Matrix<5, 17> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84])); for (int i = 0; i < 5; i++) for (int j = 0; j < 17; j++) vs_eq(m[i][j], e[i * 17 + j], "matrix values in row-major order", 0); } { FVals<85> e; Vector<85, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84])); same(v, e, 85); } }
H(h_data86) { { Vals<86> e; Vector<86> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85]); same(v, e, 86); Matrix<2, 43> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85])); for (int i = 0; i < 2; i++) for (int j = 0; j < 43; j++) vs_eq(m[i][j], e[i * 43 + j], "matrix values in row-major order", 0); } { FVals<86> e; Vector<86, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85])); same(v, e, 86); } }
H(h_data87) { { Vals<87> e; Vector<87> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86]); same(v, e, 87); Matrix<3, 29> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86])); for (int i = 0; i < 3; i++) for (int j = 0; j < 29; j++) vs_eq(m[i][j], e[i * 29 + j], "matrix values in row-major order", 0); } { FVals<87> e; Vector<87, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86])); same(v, e, 87); } }
H(h_data88) { { Vals<88> e; Vector<88> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86], e[87]); same(v, e, 88); Matrix<2, 44> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86], e[87])); for (int i = 0; i < 2; i++) for (int j = 0; j < 44; j++) vs_eq(m[i][j], e[i * 44 + j], "matrix values in row-major order", 0); } { FVals<88> e; Vector<88, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86], e[87])); same(v, e, 88); } }
H(h_data89) { { Vals<89> e; Vector<89> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86], e[87], e[88]); same(v, e, 89); Matrix<1, 89> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86], e[87], e[88])); for (int i = 0; i < 1; i++) for (int j = 0; j < 89; j++) vs_eq(m[i][j], e[i * 89 + j], "matrix values in row-major order", 0); } { FVals<89> e; Vector<89, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86], e[87], e[88])); same(v, e, 89); } }
H(h_data90) { { Vals<90> e; Vector<90> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86], e[87], e[88], e[89]); same(v, e, 90); Matrix<2, 45> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86], e[87], e[88], e[89])); for (int i = 0; i < 2; i++) for (int j = 0; j < 45; j++) vs_eq(m[i][j], e[i * 45 + j], "matrix values in row-major order", 0); } { FVals<90> e; Vector<90, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86], e[87], e[88], e[89])); same(v, e, 90); } }
H(h_data91) { { Vals<91> e; Vector<91> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86], e[87], e[88], e[89], e[90]); same(v, e, 91); Matrix<7, 13> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86], e[87], e[88], e[89], e[90])); for (int i = 0; i < 7; i++) for (int j = 0; j < 13; j++) vs_eq(m[i][j], e[i * 13 + j], "matrix values in row-major order", 0); } { FVals<91> e; Vector<91, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86], e[87], e[88], e[89], e[90])); same(v, e, 91); } }
H(h_data92) { { Vals<92> e; Vector<92> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86], e[87], e[88], e[89], e[90], e[91]); same(v, e, 92); Matrix<2, 46> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86], e[87], e[88], e[89], e[90], e[91])); for (int i = 0; i < 2; i++) for (int j = 0; j < 46; j++) vs_eq(m[i][j], e[i * 46 + j], "matrix values in row-major order", 0); } { FVals<92> e; Vector<92, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86], e[87], e[88], e[89], e[90], e[91])); same(v, e, 92); } }
H(h_data93) { { Vals<93> e; Vector<93> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86], e[87], e[88], e[89], e[90], e[91], e[92]); same(v, e, 93); Matrix<3, 31> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86], e[87], e[88], e[89], e[90], e[91], e[92])); for (int i = 0; i < 3; i++) for (int j = 0; j < 31; j++) vs_eq(m[i][j], e[i * 31 + j], "matrix values in row-major order", 0); } { FVals<93> e; Vector<93, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86], e[87], e[88], e[89], e[90], e[91], e[92])); same(v, e, 93); } }
H(h_data94) { { Vals<94> e; Vector<94> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86], e[87], e[88], e[89], e[90], e[91], e[92], e[93]); same(v, e, 94); Matrix<2, 47> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86], e[87], e[88], e[89], e[90], e[91], e[92], e[93])); for (int i = 0; i < 2; i++) for (int j = 0; j < 47; j++) vs_eq(m[i][j], e[i * 47 + j], "matrix values in row-major order", 0); } { FVals<94> e; Vector<94, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86], e[87], e[88], e[89], e[90], e[91], e[92], e[93])); same(v, e, 94); } }
H(h_data95) { { Vals<95> e; Vector<95> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86], e[87], e[88], e[89], e[90], e[91], e[92], e[93], e[94]); same(v, e, 95); Matrix<5, 19> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86], e[87], e[88], e[89], e[90], e[91], e[92], e[93], e[94])); for (int i = 0; i < 5; i++) for (int j = 0; j < 19; j++) vs_eq(m[i][j], e[i * 19 + j], "matrix values in row-major order", 0); } { FVals<95> e; Vector<95, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86], e[87], e[88], e[89], e[90], e[91], e[92], e[93], e[94])); same(v, e, 95); } }
H(h_data96) { { Vals<96> e; Vector<96> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86], e[87], e[88], e[89], e[90], e[91], e[92], e[93], e[94], e[95]); same(v, e, 96); Matrix<2, 48> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86], e[87], e[88], e[89], e[90], e[91], e[92], e[93], e[94], e[95])); for (int i = 0; i < 2; i++) for (int j = 0; j < 48; j++) vs_eq(m[i][j], e[i * 48 + j], "matrix values in row-major order", 0); } { FVals<96> e; Vector<96, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86], e[87], e[88], e[89], e[90], e[91], e[92], e[93], e[94], e[95])); same(v, e, 96); } }
H(h_data97) { { Vals<97> e; Vector<97> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86], e[87], e[88], e[89], e[90], e[91], e[92], e[93], e[94], e[95], e[96]); same(v, e, 97); Matrix<1, 97> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86], e[87], e[88], e[89], e[90], e[91], e[92], e[93], e[94], e[95], e[96])); for (int i = 0; i < 1; i++) for (int j = 0; j < 97; j++) vs_eq(m[i][j], e[i * 97 + j], "matrix values in row-major order", 0); } { FVals<97> e; Vector<97, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86], e[87], e[88], e[89], e[90], e[91], e[92], e[93], e[94], e[95], e[96])); same(v, e, 97); } }
H(h_data98) { { Vals<98> e; Vector<98> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86], e[87], e[88], e[89], e[90], e[91], e[92], e[93], e[94], e[95], e[96], e[97]); same(v, e, 98); Matrix<2, 49> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86], e[87], e[88], e[89], e[90], e[91], e[92], e[93], e[94], e[95], e[96], e[97])); for (int i = 0; i < 2; i++) for (int j = 0; j < 49; j++) vs_eq(m[i][j], e[i * 49 + j], "matrix values in row-major order", 0); } { FVals<98> e; Vector<98, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86], e[87], e[88], e[89], e[90], e[91], e[92], e[93], e[94], e[95], e[96], e[97])); same(v, e, 98); } }
H(h_data99) { { Vals<99> e; Vector<99> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86], e[87], e[88], e[89], e[90], e[91], e[92], e[93], e[94], e[95], e[96], e[97], e[98]); same(v, e, 99); Matrix<3, 33> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86], e[87], e[88], e[89], e[90], e[91], e[92], e[93], e[94], e[95], e[96], e[97], e[98])); for (int i = 0; i < 3; i++) for (int j = 0; j < 33; j++) vs_eq(m[i][j], e[i * 33 + j], "matrix values in row-major order", 0); } { FVals<99> e; Vector<99, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86], e[87], e[88], e[89], e[90], e[91], e[92], e[93], e[94], e[95], e[96], e[97], e[98])); same(v, e, 99); } }
H(h_data100) { { Vals<100> e; Vector<100> v = Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86], e[87], e[88], e[89], e[90], e[91], e[92], e[93], e[94], e[95], e[96], e[97], e[98], e[99]); same(v, e, 100); Matrix<2, 50> m(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86], e[87], e[88], e[89], e[90], e[91], e[92], e[93], e[94], e[95], e[96], e[97], e[98], e[99])); for (int i = 0; i < 2; i++) for (int j = 0; j < 50; j++) vs_eq(m[i][j], e[i * 50 + j], "matrix values in row-major order", 0); } { FVals<100> e; Vector<100, float> v(Data(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41], e[42], e[43], e[44], e[45], e[46], e[47], e[48], e[49], e[50], e[51], e[52], e[53], e[54], e[55], e[56], e[57], e[58], e[59], e[60], e[61], e[62], e[63], e[64], e[65], e[66], e[67], e[68], e[69], e[70], e[71], e[72], e[73], e[74], e[75], e[76], e[77], e[78], e[79], e[80], e[81], e[82], e[83], e[84], e[85], e[86], e[87], e[88], e[89], e[90], e[91], e[92], e[93], e[94], e[95], e[96], e[97], e[98], e[99])); same(v, e, 100); } }
// assigning Data to objects of run-time size: all the values are written, in order; a wrong count stops the program
H(h_dyn_v) { int n = vs_int("n", 1, 5); Vals<3> e; Vector<> v(n); int bad = n != 3; vs_abort_ok(bad); v = Data(e[0], e[1], e[2]); CHECK(!bad, "wrong number of values must be rejected"); ASSUME(!bad); same(v, e, 3); }
H(h_dyn_m) { int r = vs_int("r", 1, 3), c = vs_int("c", 1, 3); Vals<6> e; Matrix<> m(r, c); int bad = r * c != 6; vs_abort_ok(bad); m = Data(e[0], e[1], e[2], e[3], e[4], e[5]); CHECK(!bad, "wrong number of values must be rejected"); ASSUME(!bad); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) vs_eq(m[i][j], e[i * c + j], "matrix values in row-major order", 0); }
H(h_dyn_mc) { int r = vs_int("r", 1, 3), c = vs_int("c", 1, 3); Vals<6> e; Matrix<Dynamic, Dynamic, double, ColMajor> m(r, c); int bad = r * c != 6; vs_abort_ok(bad); m = Data(e[0], e[1], e[2], e[3], e[4], e[5]); CHECK(!bad, "wrong number of values must be rejected"); ASSUME(!bad); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) vs_eq(m[i][j], e[i * c + j], "matrix values in row-major order", 0); }
H(h_half_m) { int c = vs_int("c", 1, 3); Vals<4> e; Matrix<2, Dynamic> m(2, c); int bad = c != 2; vs_abort_ok(bad); m = Data(e[0], e[1], e[2], e[3]); CHECK(!bad, "wrong number of values must be rejected"); ASSUME(!bad); for (int i = 0; i < 2; i++) for (int j = 0; j < c; j++) vs_eq(m[i][j], e[i * c + j], "matrix values in row-major order", 0); }
H(h_half_m2) { int r = vs_int("r", 1, 3); Vals<4> e; Matrix<Dynamic, 2> m(r, 2); int bad = r != 2; vs_abort_ok(bad); m = Data(e[0], e[1], e[2], e[3]); CHECK(!bad, "wrong number of values must be rejected"); ASSUME(!bad); for (int i = 0; i < r; i++) for (int j = 0; j < 2; j++) vs_eq(m[i][j], e[i * 2 + j], "matrix values in row-major order", 0); }
H(h_slice_m) { Vals<4> e; Matrix<4> m; fillm(m); Matrix<4> o = m; m.slice<1, 2, 2, 2>() = Data(e[0], e[1], e[2], e[3]); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) vs_eq(m[i][j], i >= 1 && i < 3 && j >= 2 ? e[(i - 1) * 2 + j - 2] : o[i][j], "Data through a slice", 0); }
H(h_t_m) { Vals<6> e; Matrix<3, 2> m; m.T() = Data(e[0], e[1], e[2], e[3], e[4], e[5]); for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) vs_eq(m[j][i], e[i * 3 + j], "Data through a transpose", 0); }
H(h_mixed) { double a = vs_real("a"); Vector<3> v = makeVector(a, 2, 3); vs_eq(v[0], a, "mixed", 0); vs_eq(v[1], 2, "mixed", 0); vs_eq(v[2], 3, "mixed", 0); }
