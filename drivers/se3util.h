/* Independent conversions used to observe results as rotation matrices (column major) + translation. */
#ifndef SE3UTIL_H
#define SE3UTIL_H
#include <math.h>
static void su_q2m(const double q[4], double R[9]) {
    double x = q[0], y = q[1], z = q[2], w = q[3];
    R[0] = w*w+x*x-y*y-z*z; R[1] = 2*(x*y+w*z); R[2] = 2*(x*z-w*y);
    R[3] = 2*(x*y-w*z); R[4] = w*w-x*x+y*y-z*z; R[5] = 2*(y*z+w*x);
    R[6] = 2*(x*z+w*y); R[7] = 2*(y*z-w*x); R[8] = w*w-x*x-y*y+z*z;
}
/* qutr: q xyzw, v */
static void su_qutr2p(const double E[7], double P[12]) { su_q2m(E, P); P[9] = E[4]; P[10] = E[5]; P[11] = E[6]; }
static void su_tfmat2p(const double T[12], double P[12]) { for (int i = 0; i < 12; i++) P[i] = T[i]; }
/* dual quaternion: real xyzw, dual xyzw; t = 2 d r* */
static void su_duqu2p(const double S[8], double P[12]) {
    su_q2m(S, P);
    double rx = -S[0], ry = -S[1], rz = -S[2], rw = S[3], dx = S[4], dy = S[5], dz = S[6], dw = S[7];
    P[9]  = 2*(dw*rx + dx*rw + dy*rz - dz*ry);
    P[10] = 2*(dw*ry + dy*rw + dz*rx - dx*rz);
    P[11] = 2*(dw*rz + dz*rw + dx*ry - dy*rx);
}
/* unit quaternion from an integer one */
static void su_iq(const long i[4], double q[4]) { double n = sqrt((double)(i[0]*i[0]+i[1]*i[1]+i[2]*i[2]+i[3]*i[3])); for (int k = 0; k < 4; k++) q[k] = (double)i[k]/n; }
#endif
