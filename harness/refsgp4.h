/* Reference SGP4/SDP4 after the published equations (Spacetrack Report 3 as revised by Vallado et al. 2006, WGS-72, no epoch offsets of the lunar-solar
   terms, resonance integration with a step of choice). Works on plain mean elements; keeps no state between calls. */
#ifndef REFSGP4_H
#define REFSGP4_H
#include <math.h>
typedef struct { double jd, i, node, e, w, m, n, bstar; } rel;          /* radians, radians per minute */
typedef struct { int err; double p[3], v[3], a, e, perigee, apogee, margin, sens, phase; } rpos;   /* km, km per minute; margin: distance from the nearest error border; sens: amplification of rounding */
#define R_RE 6378.135
#define R_KE 0.0743669161331734132
#define R_J2 1.082616e-3
#define R_J3 (-2.53881e-6)
#define R_J4 (-1.65597e-6)
static double r_period(const rel *s)            /* minutes; of the recovered (Brouwer) mean motion */
{
  double th = cos(s->i), b2 = 1 - s->e * s->e, k = .75 * R_J2 * (3 * th * th - 1) / pow(b2, 1.5), a1 = pow(R_KE / s->n, 2. / 3), d1 = k / (a1 * a1);
  double a0 = a1 * (1 - d1 / 3 - d1 * d1 - 134. / 81 * d1 * d1 * d1), d0 = k / (a0 * a0);
  return 2 * M_PI / (s->n / (1 + d0));
}
static double r_gmst(double jd)
{
  double d0 = floor(jd - .5) + .5, t = (d0 - 2451545) / 36525, s = 24110.54841 + t * (8640184.812866 + t * (.093104 - t * 6.2e-6)) + 1.00273790934 * 86400 * (jd - d0);
  return fmod(s / 86400, 1) * 2 * M_PI;
}
typedef struct { double z1, z2, z3, z11, z12, z13, z21, z22, z23, z31, z32, z33, s1, s2, s3, s4, s5, s6, s7; } rbody;
static rbody r_third(double zcosg, double zsing, double zcosi, double zsini, double zcosh, double zsinh, double cc, double n, double e, double w, double inc)
{
  rbody b;
  double sw = sin(w), cw = cos(w), si = sin(inc), ci = cos(inc), ee = e * e, beta = 1 - ee, rt = sqrt(beta);
  double a1 = zcosg * zcosh + zsing * zcosi * zsinh, a3 = -zsing * zcosh + zcosg * zcosi * zsinh, a7 = -zcosg * zsinh + zsing * zcosi * zcosh, a8 = zsing * zsini;
  double a9 = zsing * zsinh + zcosg * zcosi * zcosh, a10 = zcosg * zsini, a2 = ci * a7 + si * a8, a4 = ci * a9 + si * a10, a5 = -si * a7 + ci * a8, a6 = -si * a9 + ci * a10;
  double x1 = a1 * cw + a2 * sw, x2 = a3 * cw + a4 * sw, x3 = -a1 * sw + a2 * cw, x4 = -a3 * sw + a4 * cw, x5 = a5 * sw, x6 = a6 * sw, x7 = a5 * cw, x8 = a6 * cw;
  b.z31 = 12 * x1 * x1 - 3 * x3 * x3; b.z32 = 24 * x1 * x2 - 6 * x3 * x4; b.z33 = 12 * x2 * x2 - 3 * x4 * x4;
  b.z1 = 3 * (a1 * a1 + a2 * a2) + b.z31 * ee; b.z2 = 6 * (a1 * a3 + a2 * a4) + b.z32 * ee; b.z3 = 3 * (a3 * a3 + a4 * a4) + b.z33 * ee;
  b.z11 = -6 * a1 * a5 + ee * (-24 * x1 * x7 - 6 * x3 * x5); b.z12 = -6 * (a1 * a6 + a3 * a5) + ee * (-24 * (x2 * x7 + x1 * x8) - 6 * (x3 * x6 + x4 * x5));
  b.z13 = -6 * a3 * a6 + ee * (-24 * x2 * x8 - 6 * x4 * x6); b.z21 = 6 * a2 * a5 + ee * (24 * x1 * x5 - 6 * x3 * x7);
  b.z22 = 6 * (a4 * a5 + a2 * a6) + ee * (24 * (x2 * x5 + x1 * x6) - 6 * (x4 * x7 + x3 * x8)); b.z23 = 6 * a4 * a6 + ee * (24 * x2 * x6 - 6 * x4 * x8);
  b.z1 += b.z1 + beta * b.z31; b.z2 += b.z2 + beta * b.z32; b.z3 += b.z3 + beta * b.z33;
  b.s3 = cc / n; b.s2 = -.5 * b.s3 / rt; b.s4 = b.s3 * rt; b.s1 = -15 * e * b.s4; b.s5 = x1 * x3 + x2 * x4; b.s6 = x2 * x3 + x1 * x4; b.s7 = x2 * x4 - x1 * x3;
  return b;
}
typedef struct { double e, i, l, gh, h; } rper;
static void r_periodic(const rbody *b, double e, double zx, double zm, rper *o)
{
  double zf = zm + 2 * zx * sin(zm), s = sin(zf), f2 = .5 * s * s - .25, f3 = -.5 * s * cos(zf);
  o->e += 2 * b->s1 * b->s6 * f2 + 2 * b->s1 * b->s7 * f3;
  o->i += 2 * b->s2 * b->z12 * f2 + 2 * b->s2 * (b->z13 - b->z11) * f3;
  o->l += -2 * b->s3 * b->z2 * f2 - 2 * b->s3 * (b->z3 - b->z1) * f3 - 2 * b->s3 * (-21 - 9 * e * e) * zx * s;
  o->gh += 2 * b->s4 * b->z32 * f2 + 2 * b->s4 * (b->z33 - b->z31) * f3 - 18 * b->s4 * zx * s;
  o->h += -2 * b->s2 * b->z22 * f2 - 2 * b->s2 * (b->z23 - b->z21) * f3;
}
static double r_poly(double x, double a, double b, double c, double d) { return a + b * x + c * x * x + d * x * x * x; }
/* lunar-solar terms and resonance of one element set */
typedef struct { rbody sun, moon; double zmos, zmol, de, di, dl, dw, dn; } rdeep;
static rdeep r_deep_init(const rel *s, double no)
{
  rdeep D = {0};
  double e0 = s->e, eq = e0 * e0, ci = cos(s->i), si = sin(s->i);
  double day = s->jd - 2415020, xn = 4.5236020 - 9.2422029e-4 * day, st = sin(xn), ct = cos(xn), zil = .91375164 - .03568096 * ct, zsl = sqrt(1 - zil * zil), zhl = .089683511 * st / zsl, zch = sqrt(1 - zhl * zhl);
    double gam = 5.8351514 + .0019443680 * day, zx = gam + atan2(.39785416 * st / zsl, zch * ct + .91744867 * zhl * st) - xn, sq = sin(s->node), cq = cos(s->node);
    D.sun = r_third(.1945905, -.98088458, .91744867, .39785416, cq, sq, 2.9864797e-6, no, e0, s->w, s->i);
    D.moon = r_third(cos(zx), sin(zx), zil, zsl, zch * cq + zhl * sq, sq * zch - cq * zhl, 4.7968065e-7, no, e0, s->w, s->i);
    D.zmol = 4.7199672 + .22997150 * day - gam; D.zmos = 6.2565837 + .017201977 * day;
    /* secular */
    double zn[2] = {1.19459e-5, 1.5835218e-4};
    for (int k = 0; k < 2; k++) {
      rbody *q = k ? &D.moon : &D.sun;
      double sh = s->i < M_PI / 60 ? 0 : -zn[k] * q->s2 * (q->z21 + q->z23), h = si ? sh / si : 0;
      D.de += q->s1 * zn[k] * q->s5; D.di += q->s2 * zn[k] * (q->z11 + q->z13); D.dl -= zn[k] * q->s3 * (q->z1 + q->z3 - 14 - 6 * eq);
      D.dw += q->s4 * zn[k] * (q->z31 + q->z33 - 6) - ci * h; D.dn += h;
    }
  return D;
}
static double r_deep_secular(const rdeep *D, const rel *s, double t, double step, double no, double ao, double mdot, double wdot, double ndot, double *mm, double *w, double *node, double *em, double *inc)
{
  double e0 = s->e, eq = e0 * e0, ci = cos(s->i), si = sin(s->i), c2 = ci * ci, nm = no, dl = D->dl, dn = D->dn, dw = D->dw;
  *em += D->de * t; *inc += D->di * t; *mm += dl * t; *w += dw * t; *node += dn * t;
    double th0 = r_gmst(s->jd), rp_ = 4.37526908801129966e-3, th = th0 + rp_ * t, period = no * 1440 / (2 * M_PI);
    int half = no >= 8.26e-3 && no <= 9.24e-3 && e0 >= .5, day1 = !half && period < 1.2 && period > .8;
    if (half || day1) {
      double av = 1 / ao, x0, xf, d[10] = {0}, ph[10] = {0};
      int kl[10] = {0}, kw[10] = {0}, nt;
      if (half) {
        double e = e0, s2 = si * si, g201 = -.306 - (e - .64) * .440, g211, g310, g322, g410, g422, g520, g533, g521, g532;
        if (e <= .65) { g211 = 3.616 - 13.247 * e + 16.29 * eq; g310 = r_poly(e, -19.302, 117.390, -228.419, 156.591); g322 = r_poly(e, -18.9068, 109.7927, -214.6334, 146.5816); g410 = r_poly(e, -41.122, 242.694, -471.094, 313.953);
          g422 = r_poly(e, -146.407, 841.880, -1629.014, 1083.435); g520 = r_poly(e, -532.114, 3017.977, -5740.032, 3708.276); }
        else { g211 = r_poly(e, -72.099, 331.819, -508.738, 266.724); g310 = r_poly(e, -346.844, 1582.851, -2415.925, 1246.113); g322 = r_poly(e, -342.585, 1554.908, -2366.899, 1215.972);
          g410 = r_poly(e, -1052.797, 4758.686, -7193.992, 3651.957); g422 = r_poly(e, -3581.69, 16178.11, -24462.77, 12422.52); g520 = e > .715 ? r_poly(e, -5149.66, 29936.92, -54087.36, 31324.56) : r_poly(e, 1464.74, -4664.75, 3763.64, 0); }
        if (e < .7) { g533 = r_poly(e, -919.2277, 4988.61, -9064.77, 5542.21); g521 = r_poly(e, -822.71072, 4568.6173, -8491.4146, 5337.524); g532 = r_poly(e, -853.666, 4690.25, -8624.77, 5341.4); }
        else { g533 = r_poly(e, -37995.78, 161616.52, -229838.2, 109377.94); g521 = r_poly(e, -51752.104, 218913.95, -309468.16, 146349.42); g532 = r_poly(e, -40023.88, 170470.89, -242699.48, 115605.82); }
        double f220 = .75 * (1 + 2 * ci + c2), f221 = 1.5 * s2, f321 = 1.875 * si * (1 - 2 * ci - 3 * c2), f322 = -1.875 * si * (1 + 2 * ci - 3 * c2), f441 = 35 * s2 * f220, f442 = 39.375 * s2 * s2;
        double f522 = 9.84375 * si * (s2 * (1 - 2 * ci - 5 * c2) + .33333333 * (-2 + 4 * ci + 6 * c2)), f523 = si * (4.92187512 * s2 * (-2 - 4 * ci + 10 * c2) + 6.56250012 * (1 + 2 * ci - 3 * c2));
        double f542 = 29.53125 * si * (2 - 8 * ci + c2 * (-12 + 8 * ci + 10 * c2)), f543 = 29.53125 * si * (-2 - 8 * ci + c2 * (12 + 8 * ci - 10 * c2));
        double k2 = 3 * no * no * av * av, k3 = k2 * av, k4 = k3 * av, k5 = k4 * av, r22 = 1.7891679e-6, r32 = 3.7393792e-7, r44 = 7.3636953e-9, r52 = 1.1428639e-7, r54 = 2.1765803e-9;
        double G22 = 5.7686396, G32 = .95240898, G44 = 1.8014998, G52 = 1.0508330, G54 = 4.4108898;
        double D[10] = {k2 * r22 * f220 * g201, k2 * r22 * f221 * g211, k3 * r32 * f321 * g310, k3 * r32 * f322 * g322, 2 * k4 * r44 * f441 * g410, 2 * k4 * r44 * f442 * g422, k5 * r52 * f522 * g520, k5 * r52 * f523 * g532, 2 * k5 * r54 * f542 * g521, 2 * k5 * r54 * f543 * g533};
        double P[10] = {G22, G22, G32, G32, G44, G44, G52, G52, G54, G54}; int L[10] = {1, 1, 1, 1, 2, 2, 1, 1, 2, 2}, W[10] = {2, 0, 1, -1, 2, 0, 1, -1, 1, -1};
        nt = 10;
        for (int k = 0; k < nt; k++) { d[k] = D[k]; ph[k] = P[k]; kl[k] = L[k]; kw[k] = W[k]; }
        x0 = s->m + 2 * s->node - 2 * th0; xf = mdot + dl + 2 * (ndot + dn - rp_) - no;
      } else {
        double g200 = 1 + eq * (-2.5 + .8125 * eq), g310 = 1 + 2 * eq, g300 = 1 + eq * (-6 + 6.60937 * eq), f220 = .75 * (1 + ci) * (1 + ci), f311 = .9375 * si * si * (1 + 3 * ci) - .75 * (1 + ci), f330 = 1.875 * pow(1 + ci, 3);
        double k = 3 * no * no * av * av;
        nt = 3;
        d[0] = k * f311 * g310 * 2.1460748e-6 * av; d[1] = 2 * k * f220 * g200 * 1.7891679e-6; d[2] = 3 * k * f330 * g300 * 2.2123015e-7 * av;
        ph[0] = .13130908; ph[1] = 2 * 2.8843198; ph[2] = 3 * .37448087; kl[0] = 1; kl[1] = 2; kl[2] = 3;
        x0 = s->m + s->node + s->w - th0; xf = mdot + wdot + ndot - rp_ + dl + dw + dn - no;
      }
      double x = x0, n = no, at = 0;
      for (;;) {
        double h = t - at, f = 0, f1 = 0, om = s->w + wdot * at, xd;
        int last = fabs(h) <= step;
        if (!last) h = h > 0 ? step : -step;
        for (int k = 0; k < nt; k++) { double a = kl[k] * x + kw[k] * om - ph[k]; f += d[k] * sin(a); f1 += d[k] * kl[k] * cos(a); }
        xd = n + xf;
        x += h * xd + f * h * h / 2; n += h * f + f1 * xd * h * h / 2; at += h;
        if (last) break;
      }
      nm = n;
      *mm = half ? x - 2 * *node + 2 * th : x - *node - *w + th;
    }
  return nm;
}
static void r_deep_periodic(const rdeep *D, const rel *s, double t, double *mm, double *w, double *node, double *em, double *inc)
{
  rper p = {0, 0, 0, 0, 0};
  r_periodic(&D->sun, s->e, .01675, D->zmos + 1.19459e-5 * t, &p);
  r_periodic(&D->moon, s->e, .05490, D->zmol + 1.5835218e-4 * t, &p);
  *inc += p.i; *em += p.e; *mm += p.l;
  double sp = sin(*inc), cp = cos(*inc);
  if (s->i >= .2) { double h = p.h / sp; *w += p.gh - cp * h; *node += h; }
  else {
    double al = sp * sin(*node) + p.h * cos(*node) + p.i * cp * sin(*node), be = sp * cos(*node) - p.h * sin(*node) + p.i * cp * cos(*node), nn = atan2(al, be), dn = remainder(nn - *node, 2 * M_PI);
    *w += p.gh - p.i * *node * sp - cp * dn; *node += dn;
  }
}
/* model: 0 near, 1 deep. step: of the resonance integration, minutes */
static rpos r_sgp4(const rel *s, double t, int deep, double step)
{
  rpos o = {0};
  o.margin = 1;
  double ci = cos(s->i), si = sin(s->i), c2 = ci * ci, c4i = c2 * c2, e0 = s->e, eq = e0 * e0, b2 = 1 - eq, b = sqrt(b2);
  double no = 2 * M_PI / r_period(s), ao;
  { double k = .75 * R_J2 * (3 * c2 - 1) / (b * b2), a1 = pow(R_KE / s->n, 2. / 3), d1 = k / (a1 * a1), a0 = a1 * (1 - d1 / 3 - d1 * d1 - 134. / 81 * d1 * d1 * d1); ao = a0 / (1 - k / (a0 * a0)); }
  double con41 = 3 * c2 - 1, con42 = 1 - 5 * c2, rp = ao * (1 - e0), po = ao * b2, ss = 78 / R_RE + 1, s4 = ss, qz = pow((120 - 78) / R_RE, 4), per = (rp - 1) * R_RE;
  int simple = deep || rp < 220 / R_RE + 1;
  if (per < 156) { s4 = per < 98 ? 20 : per - 78; qz = pow((120 - s4) / R_RE, 4); s4 = s4 / R_RE + 1; }
  double pi2 = 1 / (po * po), tsi = 1 / (ao - s4), eta = ao * e0 * tsi, et2 = eta * eta, eeta = e0 * eta, psi = fabs(1 - et2), coef = qz * pow(tsi, 4), coef1 = coef / pow(psi, 3.5);
  double cc2 = coef1 * no * (ao * (1 + 1.5 * et2 + eeta * (4 + et2)) + .375 * R_J2 * tsi / psi * con41 * (8 + 3 * et2 * (8 + et2))), cc1 = s->bstar * cc2;
  double j32 = R_J3 / R_J2, cc3 = e0 >= 1e-4 ? -2 * coef * tsi * j32 * no * si / e0 : 0;
  double cc4 = 2 * no * coef1 * ao * b2 * (eta * (2 + .5 * et2) + e0 * (.5 + 2 * et2) - R_J2 * tsi / (ao * psi) * (-3 * con41 * (1 - 2 * eeta + et2 * (1.5 - .5 * eeta)) + .75 * (1 - c2) * (2 * et2 - eeta * (1 + et2)) * cos(2 * s->w)));
  double cc5 = 2 * coef1 * ao * b2 * (1 + 2.75 * (et2 + eeta) + eeta * et2);
  double t1 = 1.5 * R_J2 * pi2 * no, t2 = .5 * t1 * R_J2 * pi2, t3 = -.46875 * R_J4 * pi2 * pi2 * no;
  double mdot = no + .5 * t1 * b * con41 + .0625 * t2 * b * (13 - 78 * c2 + 137 * c4i), wdot = -.5 * t1 * con42 + .0625 * t2 * (7 - 114 * c2 + 395 * c4i) + t3 * (3 - 36 * c2 + 49 * c4i);
  double xh = -t1 * ci, ndot = xh + (.5 * t2 * (4 - 19 * c2) + 2 * t3 * (3 - 7 * c2)) * ci, ncf = 3.5 * b2 * xh * cc1;
  double mm = s->m + mdot * t, w = s->w + wdot * t, node = s->node + ndot * t + ncf * t * t, ta = 1 - cc1 * t, te = s->bstar * cc4 * t, tl = 1.5 * cc1 * t * t, em = e0, inc = s->i, nm = no;
  if (!simple) {
    double x = mm, dw = s->bstar * cc3 * cos(s->w) * t, dm = e0 >= 1e-4 ? -2. / 3 * coef * s->bstar / eeta * (pow(1 + eta * cos(x), 3) - pow(1 + eta * cos(s->m), 3)) : 0;
    double q = cc1 * cc1, d2 = 4 * ao * tsi * q, tt = d2 * tsi * cc1 / 3, d3 = (17 * ao + s4) * tt, d4 = .5 * tt * ao * tsi * (221 * ao + 31 * s4) * cc1;
    mm = x + dw + dm; w -= dw + dm;
    ta -= t * t * (d2 + t * (d3 + t * d4));
    te += s->bstar * cc5 * (sin(mm) - sin(s->m));
    tl += t * t * t * (d2 + 2 * q) + pow(t, 4) * (.25 * (3 * d3 + cc1 * (12 * d2 + 10 * q)) + t * .2 * (3 * d4 + 12 * cc1 * d3 + 6 * d2 * d2 + 15 * q * (2 * d2 + q)));
  }
  rdeep dp = {0};
  if (deep) {
    rdeep D = r_deep_init(s, no);
    nm = r_deep_secular(&D, s, t, step, no, ao, mdot, wdot, ndot, &mm, &w, &node, &em, &inc);
    if (nm < 0) { o.err = -5; return o; }
    dp = D;
  }
  double am = pow(R_KE / (deep ? nm : no), 2. / 3);
  if (!deep) am = ao;
  am *= ta * ta;
  o.margin = fabs(ta);
  if (ta < 0 || am < 0) { o.err = -2; return o; }
  em -= te;
  if (!deep && em < 1e-6) em = 1e-6;
  mm += no * tl;
  if (deep) {
    r_deep_periodic(&dp, s, t, &mm, &w, &node, &em, &inc);
    ci = cos(inc); si = sin(inc); c2 = ci * ci; con41 = 3 * c2 - 1;
  }
  o.phase = 10 + fabs(s->m + mdot * t) + fabs(no * tl) + fabs(mm) + fabs(w) + fabs(node);
  o.a = am; o.e = em; o.perigee = am * (1 - fabs(em)); o.apogee = am * (1 + fabs(em));
  double ax = em * cos(w), q = 1 / (am * (1 - em * em)), ay = em * sin(w) - q * .5 * j32 * si, xl = mm + w + node - q * .25 * j32 * si * (3 + 5 * ci) / fmax(1 + ci, 1.5e-12) * ax;
  double el2 = ax * ax + ay * ay;
  o.margin = fmin(o.margin, 100 * fabs(el2 - 1 + 1e-6)); o.sens = 1 / (1 - fmin(el2, 1)) / (1 - fmin(el2, 1));
  if (el2 > 1 - 1e-6) { o.err = -1; return o; }
  double u = remainder(xl - node, 2 * M_PI), E = u, lo = u - sqrt(el2) - 1e-9, hi = u + sqrt(el2) + 1e-9;
  for (int k = 0; k < 200; k++) {               /* bracketed Newton: E - ax sin E + ay cos E = u */
    double f = E - ax * sin(E) + ay * cos(E) - u, fp = 1 - ax * cos(E) - ay * sin(E), nx;
    if (f > 0) hi = E; else lo = E;
    nx = E - f / fp;
    if (!(nx > lo && nx < hi)) nx = (lo + hi) / 2;
    if (fabs(nx - E) < 1e-15) { E = nx; break; }
    E = nx;
  }
  double ce = ax * cos(E) + ay * sin(E), se = ax * sin(E) - ay * cos(E), pl = am * (1 - el2), rl = am * (1 - ce), bl = sqrt(1 - el2), tmp = se / (1 + bl);
  double su = am / rl * (sin(E) - ay - ax * tmp), cu = am / rl * (cos(E) - ax + ay * tmp), uu = atan2(su, cu), s2u = 2 * su * cu, c2u = 1 - 2 * su * su, k1 = .5 * R_J2 / pl, k2 = k1 / pl, n2 = R_KE / pow(am, 1.5);
  double x1m = 1 - c2, mr = rl * (1 - 1.5 * k2 * bl * con41) + .5 * k1 * x1m * c2u, xi = inc + 1.5 * k2 * ci * si * c2u, xo = node + 1.5 * k2 * ci * s2u;
  uu -= .25 * k2 * (7 * c2 - 1) * s2u;
  double rd = R_KE * sqrt(am) * se / rl - n2 * k1 * x1m * s2u, rv = R_KE * sqrt(pl) / rl + n2 * k1 * (x1m * c2u + 1.5 * con41);
  double U[3] = {cos(xo) * cos(uu) - sin(xo) * cos(xi) * sin(uu), sin(xo) * cos(uu) + cos(xo) * cos(xi) * sin(uu), sin(xi) * sin(uu)};
  double V[3] = {-cos(xo) * sin(uu) - sin(xo) * cos(xi) * cos(uu), -sin(xo) * sin(uu) + cos(xo) * cos(xi) * cos(uu), sin(xi) * cos(uu)};
  for (int k = 0; k < 3; k++) { o.p[k] = mr * U[k] * R_RE; o.v[k] = (rd * U[k] + rv * V[k]) * R_RE; }
  return o;
}
/* the original simplified model (SGP) with zero drag terms */
static double r_wrap(double x) { return remainder(x, 2 * M_PI); }
static double r_kepler(double u, double ax, double ay)       /* E - ax sin E + ay cos E = u */
{
  double E = u, g = hypot(ax, ay), lo = u - g - 1e-9, hi = u + g + 1e-9;
  for (int k = 0; k < 200; k++) {
    double f = E - ax * sin(E) + ay * cos(E) - u, nx;
    if (f > 0) hi = E; else lo = E;
    nx = E - f / (1 - ax * cos(E) - ay * sin(E));
    if (!(nx > lo && nx < hi)) nx = (lo + hi) / 2;
    if (fabs(nx - E) < 1e-15) return nx;
    E = nx;
  }
  return E;
}
static rpos r_sgp(const rel *s, double ndot, double nddot, double t)
{
  rpos o = {0};
  o.margin = 1;
  double ci = cos(s->i), si = sin(s->i), c1 = .75 * R_J2, c4 = R_J3 / (2 * R_J2), a1 = pow(R_KE / s->n, 2. / 3), d1 = c1 * (3 * ci * ci - 1) / (a1 * a1 * pow(1 - s->e * s->e, 1.5));
  double ao = a1 * (1 - d1 / 3 - d1 * d1 - 134. / 81 * d1 * d1 * d1), po = ao * (1 - s->e * s->e), qo = ao * (1 - s->e);
  double wdot = c1 * s->n * (5 * ci * ci - 1) / (po * po), nodedot = -2 * c1 * ci * s->n / (po * po), c6 = c4 * si, c5 = .5 * c6 * (5 * ci + 3) / fmax(1 + ci, 1.5e-12);
  double n = s->n + (2 * ndot + 3 * nddot * t) * t;
  if (n <= 0 || ao <= 0) { o.err = -2; return o; }
  double a = ao * pow(s->n / n, 2. / 3), e = a > qo ? 1 - qo / a : 1e-6, p = a * (1 - e * e), w = s->w + wdot * t, node = s->node + nodedot * t;
  o.a = a; o.e = e; o.perigee = a * (1 - e); o.apogee = a * (1 + e);
  double ax = e * cos(w), ay = e * sin(w) - c6 / p, xl = s->m + s->w + s->node + (s->n + wdot + nodedot + (ndot + nddot * t) * t) * t - c5 / p * ax, el2 = ax * ax + ay * ay;
  o.margin = fmin(fmin(fabs(n) * 1e3, 100 * fabs(el2 - 1 + 1e-6)), 100 * fabs(e - 1 + 1e-6)); o.sens = 1 / (1 - fmin(el2, 1)) / (1 - fmin(el2, 1));
  if (el2 > 1 - 1e-6 || e > 1 - 1e-6) { o.err = -1; return o; }
  o.phase = 10 + fabs(xl) + fabs(s->n * t) + fabs(w) + fabs(node);
  double u = r_wrap(xl - node), E = r_kepler(u, ax, ay), ce = ax * cos(E) + ay * sin(E), se = ax * sin(E) - ay * cos(E), pl = a * (1 - el2), r = a * (1 - ce);
  double rd = R_KE * sqrt(a) / r * se, rv = R_KE * sqrt(pl) / r, tm = se / (1 + sqrt(1 - el2)), su = a / r * (sin(E) - ay - ax * tm), cu = a / r * (cos(E) - ax + ay * tm), U = atan2(su, cu), k2 = .5 * R_J2;
  double rk = r + .5 * k2 / pl * si * si * cos(2 * U), uk = U - .25 * k2 / (pl * pl) * (7 * ci * ci - 1) * sin(2 * U), xo = node + 1.5 * k2 / (pl * pl) * ci * sin(2 * U), xi = s->i + 1.5 * k2 / (pl * pl) * si * ci * cos(2 * U);
  double A[3] = {cos(xo) * cos(uk) - sin(xo) * cos(xi) * sin(uk), sin(xo) * cos(uk) + cos(xo) * cos(xi) * sin(uk), sin(xi) * sin(uk)};
  double B[3] = {-cos(xo) * sin(uk) - sin(xo) * cos(xi) * cos(uk), -sin(xo) * sin(uk) + cos(xo) * cos(xi) * cos(uk), sin(xi) * cos(uk)};
  for (int k = 0; k < 3; k++) { o.p[k] = rk * A[k] * R_RE; o.v[k] = (rd * A[k] + rv * B[k]) * R_RE; }
  return o;
}
/* SGP8 (deep 0) and SDP8 (deep 1) */
static rpos r_sgp8(const rel *s, double t, int deep, double step)
{
  rpos o = {0};
  o.margin = 1;
  const double rho = .15696615, S = 78 / R_RE + 1, q4 = pow(42 / R_RE, 4), k2 = .5 * R_J2, k4 = -.375 * R_J4, a3 = -R_J3;
  double ci = cos(s->i), si = sin(s->i), c2 = ci * ci, c4i = c2 * c2, e = s->e, ee = e * e, b2 = 1 - ee, be = sqrt(b2), no = 2 * M_PI / r_period(s), ao;
  { double k = .75 * R_J2 * (3 * c2 - 1) / (be * b2), a1 = pow(R_KE / s->n, 2. / 3), d1 = k / (a1 * a1), a0 = a1 * (1 - d1 / 3 - d1 * d1 - 134. / 81 * d1 * d1 * d1); ao = a0 / (1 - k / (a0 * a0)); }
  double sw = sin(s->w), cw = cos(s->w), th1 = 3 * c2 - 1, u5 = 1 - 5 * c2, u1 = 1 - c2, po = ao * b2, pm2 = 1 / (po * po), p1 = 3 * k2 * pm2 * no, p2 = p1 * k2 * pm2, p4 = 1.25 * k4 * pm2 * pm2 * no;
  double m1 = .5 * p1 * be * th1, g1_ = -.5 * p1 * u5, h1 = -p1 * ci;
  double mdot = no + m1 + .0625 * p2 * be * (13 - 78 * c2 + 137 * c4i), wdot = g1_ + .0625 * p2 * (7 - 114 * c2 + 395 * c4i) + p4 * (3 - 36 * c2 + 49 * c4i), ndot = h1 + (.5 * p2 * (4 - 19 * c2) + 2 * p4 * (3 - 7 * c2)) * ci;
  double B = 2 * s->bstar / rho, tsi = 1 / (po - S), eta = e * S * tsi, n2 = eta * eta, psi = fabs(1 / (1 - n2)), al = 1 + ee, en = e * eta, cos2g = 2 * cw * cw - 1, sin2g = 2 * sw * cw;
  double D5 = tsi * psi, D1 = D5 / po, D2 = 12 + n2 * (36 + 4.5 * n2), D3 = n2 * (15 + 2.5 * n2), D4 = eta * (5 + 3.75 * n2), B1 = k2 * th1, B2 = -k2 * u1, B3 = a3 / k2 * si;
  double C0 = .5 * B * rho * q4 * no * ao * pow(tsi, 4) * pow(psi, 3.5) / sqrt(al), C1 = 1.5 * no * al * al * C0, C4 = D1 * D3 * B2, C5 = D5 * D4 * B3;
  double nd = C1 * (2 + n2 * (3 + 34 * ee) + 5 * en * (4 + n2) + 8.5 * ee + D1 * D2 * B1 + C4 * cos2g + C5 * sw), ndn = nd / no, ed = -2. / 3 * ndn * (1 - e);
  double xn, em, z1, mm = s->m + mdot * t, w = s->w + wdot * t, node = s->node + ndot * t, inc = s->i;
  if (!deep && fabs(ndn * 1440) > .00216) {
    double D6 = eta * (30 + 22.5 * n2), D7 = eta * (5 + 12.5 * n2), D8 = 1 + n2 * (6.75 + n2), C8 = D1 * D7 * B2, C9 = D5 * D8 * B3, D20 = ndn / 3;
    double edot = -C0 * (eta * (4 + n2 + ee * (15.5 + 7 * n2)) + e * (5 + 15 * n2) + D1 * D6 * B1 + C8 * cos2g + C9 * sw);
    double tst = 2 * ao * tsi * (D20 * b2 + e * edot), ald = e * edot / al, et = (edot + e * tst) * tsi * S, pst = -eta * et * psi, c00 = D20 + 4 * tst - ald - 7 * pst, c11 = ndn + 4 * ald + c00;
    double D9 = eta * (6 + 68 * ee) + e * (20 + 15 * n2), D10 = 5 * eta * (4 + n2) + e * (17 + 68 * n2), D11 = eta * (72 + 18 * n2), D12 = eta * (30 + 10 * n2), D13 = 5 + 11.25 * n2, D14 = tst - 2 * pst, D15 = 2 * (D20 + e * edot / b2);
    double D1t = D1 * (D14 + D15), D2t = et * D11, D3t = et * D12, D4t = et * D13, D5t = D5 * D14, C4t = B2 * (D1t * D3 + D1 * D3t), C5t = B3 * (D5t * D4 + D5 * D4t);
    double D16 = D9 * et + D10 * edot + B1 * (D1t * D2 + D1 * D2t) + C4t * cos2g + C5t * sw + g1_ * (C5 * cw - 2 * C4 * sin2g), ndd = c11 * nd + C1 * D16;
    double edd = c00 * edot - C0 * ((4 + 3 * n2 + 30 * en + ee * (15.5 + 21 * n2)) * et + (5 + 15 * n2 + en * (31 + 14 * n2)) * edot + B1 * (D1t * D6 + D1 * et * (30 + 67.5 * n2)) + B2 * (D1t * D7 + D1 * et * (5 + 37.5 * n2)) * cos2g
      + B3 * (D5t * D8 + D5 * et * eta * (13.5 + 4 * n2)) * sw + g1_ * (C9 * cw - 2 * C8 * sin2g));
    double D25 = edot * edot, D17 = ndd / no - ndn * ndn, tsdd = 2 * tst * (tst - D20) + ao * tsi * (2. / 3 * b2 * D17 - 4 * D20 * e * edot + 2 * (D25 + e * edd)), etdd = (edd + 2 * edot * tst) * tsi * S + tsdd * eta;
    double D18 = tsdd - tst * tst, D19 = -pst * pst / n2 - eta * etdd * psi - pst * pst, D23 = et * et, D1dd = D1t * (D14 + D15) + D1 * (D18 - 2 * D19 + 2. / 3 * D17 + 2 * (al * D25 / b2 + e * edd) / b2);
    double nt = nd * (4. / 3 * D17 + 3 * (D25 + e * edd) / al - 6 * ald * ald + 4 * D18 - 7 * D19) + c11 * ndd + C1 * (c11 * D16 + D9 * etdd + D10 * edd + D23 * (6 + 30 * en + 68 * ee) + et * edot * (40 + 30 * n2 + 272 * en) + D25 * (17 + 68 * n2)
      + B1 * (D1dd * D2 + 2 * D1t * D2t + D1 * (etdd * D11 + D23 * (72 + 54 * n2))) + B2 * (D1dd * D3 + 2 * D1t * D3t + D1 * (etdd * D12 + D23 * (30 + 30 * n2))) * cos2g
      + B3 * ((D5t * D14 + D5 * (D18 - 2 * D19)) * D4 + 2 * D4t * D5t + D5 * (etdd * D13 + 22.5 * eta * D23)) * sw + g1_ * ((7 * D20 + 4 * e * edot / b2) * (C5 * cw - 2 * C4 * sin2g) + (2 * C5t * cw - 4 * C4t * sin2g - g1_ * (C5 * sw + 4 * C4 * cos2g))));
    double q = ndd * ndd - nd * nt, P = (q + ndd * ndd) / q, G = -nt / (ndd * (P - 2)), N = nd / (P * G), Q = 1 - edd / (edot * G), E = edot / (Q * G), b = 1 - G * t;
    if (!(b > 0)) { o.err = -2; return o; }
    xn = no + N * (1 - pow(b, P)); em = e + E * (1 - pow(b, Q)); z1 = N * (t + (pow(b, P + 1) - 1) / (G * (P + 1)));
  } else { xn = no + nd * t; em = e + ed * t; z1 = .5 * nd * t * t; }
  double z7 = 7. / 3 * z1 / no, c2p = c2;
  w += z7 * g1_; node += z7 * h1;
  if (deep) {
    rdeep D = r_deep_init(s, no);
    double ev = e;
    xn = r_deep_secular(&D, s, t, step, no, ao, mdot, wdot, ndot, &mm, &w, &node, &ev, &inc) + nd * t;
    em = ev + ed * t;
    mm += z1 + z7 * m1;
    r_deep_periodic(&D, s, t, &mm, &w, &node, &em, &inc);
  } else mm += z1 + z7 * m1;
  o.margin = fmin(1e3 * fabs(xn), 100 * fabs(fabs(em) - 1 + 1e-6));
  if (!(xn > 0)) { o.err = -5; return o; }
  if (!(fabs(em) < 1 - 1e-6)) { o.err = -1; return o; }
  double M = r_wrap(mm), Ea = r_kepler(M, em, 0), dd = 1 / (1 - em * cos(Ea)), am = pow(R_KE / xn, 2. / 3), bm2 = 1 - em * em, bm = sqrt(bm2), pm = am * bm2;
  double g1 = 1 / pm, g2 = .5 * k2 * g1, g3 = g2 * g1, g4 = .25 * a3 / k2 * si, g5 = .25 * a3 / k2 * g1, sf = bm * sin(Ea) * dd, cf = (cos(Ea) - em) * dd, f = atan2(sf, cf), so = sin(w), co = cos(w), ax = em * co, ay = em * so;
  double sfg = sf * co + cf * so, cfg = cf * co - sf * so, s2 = 2 * sfg * cfg, c2fg = 2 * cfg * cfg - 1, ecf = em * cf, g10 = r_wrap(f - M) + em * sf, rm = pm / (1 + ecf), g13 = xn * am / rm, g14 = -g13 * am / rm;
  double dr = g2 * (u1 * c2fg - 3 * th1) - g4 * sfg, diwc = 3 * g3 * si * c2fg - g5 * ay, di = diwc * ci, si2 = sin(s->i / 2), ci2 = cos(s->i / 2), si2p = deep ? sin(inc / 2) : si2;
  double sdu = si2 * (g3 * (.5 * (1 - 7 * c2p) * s2 - 3 * u5 * g10) - g5 * si * cfg * (2 + ecf)) - .5 * g5 * c2p * ax / ci2;
  double lam = f + w + node + g3 * (.5 * (1 + 6 * ci - 7 * c2p) * s2 - 3 * (u5 + 2 * ci) * g10) + g5 * si * (ci * ax / fmax(1 + ci, 1.5e-12) - (2 + ecf) * cfg);
  double y4 = si2p * sfg + cfg * sdu + .5 * sfg * ci2 * di, y5 = si2p * cfg - sfg * sdu + .5 * cfg * ci2 * di, r = rm + dr;
  if (!(y4 * y4 + y5 * y5 <= 1 + 1e-12)) { o.err = -6; o.margin = fmin(o.margin, fabs(1 - y4 * y4 - y5 * y5)); return o; }
  double rd = xn * am * em * sf / bm + g14 * (2 * g2 * u1 * s2 + g4 * cfg), rv = xn * am * am * bm / rm + g14 * dr + am * g13 * si * diwc;
  double tx = 2 * (y5 * sin(lam) - y4 * cos(lam)), ty = 2 * (y5 * cos(lam) + y4 * sin(lam)), tz = 2 * sqrt(fmax(0, 1 - y4 * y4 - y5 * y5));
  double U[3] = {y4 * tx + cos(lam), -y4 * ty + sin(lam), y4 * tz}, V[3] = {y5 * tx - sin(lam), -y5 * ty + cos(lam), y5 * tz};
  o.phase = 10 + fabs(s->m + mdot * t) + fabs(z1) + fabs(mm) + fabs(w) + fabs(node); o.sens = 1 / bm2 / bm2;
  o.a = am; o.e = em; o.perigee = am * (1 - fabs(em)); o.apogee = am * (1 + fabs(em));
  for (int k = 0; k < 3; k++) { o.p[k] = r * U[k] * R_RE; o.v[k] = (rd * U[k] + rv * V[k]) * R_RE; }
  return o;
}
#endif
