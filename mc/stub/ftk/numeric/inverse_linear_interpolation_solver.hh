// Stand-in for the one FTK routine the 3D compressor uses (FTK itself is not installable offline).
// Same contract as FTK's inverse_lerp_s3v3: barycentric coordinates of the zero of the linear
// interpolant over a tetrahedron, true when it lies in the closed tetrahedron.
#ifndef MC_STUB_FTK_INVERSE_LERP
#define MC_STUB_FTK_INVERSE_LERP
namespace ftk {
template <class T>
inline T mc_det3(const T A[3][3]) {
  return A[0][0]*(A[1][1]*A[2][2] - A[1][2]*A[2][1])
       - A[0][1]*(A[1][0]*A[2][2] - A[1][2]*A[2][0])
       + A[0][2]*(A[1][0]*A[2][1] - A[1][1]*A[2][0]);
}
template <class T>
inline bool inverse_lerp_s3v3(const T V[4][3], T mu[4], T * cond, const T threshold) {
  T A[3][3], b[3];
  for (int i = 0; i < 3; i++) {
    for (int j = 0; j < 3; j++) A[i][j] = V[j][i] - V[3][i];
    b[i] = -V[3][i];
  }
  const T D = mc_det3(A);
  for (int c = 0; c < 3; c++) {
    T B[3][3];
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) B[i][j] = (j == c) ? b[i] : A[i][j];
    mu[c] = mc_det3(B) / D;
  }
  mu[3] = T(1) - mu[0] - mu[1] - mu[2];
  if (cond) *cond = D;
  (void)threshold;
  for (int i = 0; i < 4; i++) if (!(mu[i] >= 0 && mu[i] <= 1)) return false;
  return true;
}
template <class T>
inline bool inverse_lerp_s3v3(T V[4][3], T mu[4], T * cond, const T threshold) {
  return inverse_lerp_s3v3((const T (*)[3])V, mu, cond, threshold);
}
}
#endif
