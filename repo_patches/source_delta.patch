From 2482c824909df5cf52c9ec554f73595918e4131d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:30 +0000
Subject: [PATCH 01/61] fix: angle fields of a TLE without separating blank
 were read past the end of the line

---
 src/get_el.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/get_el.c b/src/get_el.c
index 7b92ea7..ff10715 100644
--- a/src/get_el.c
+++ b/src/get_el.c
@@ -22,10 +22,11 @@ converted to radians,  all in one step.    */
 static int get_angle( const char *buff)
 {
    int rval = 0;
+   const char *end = buff + 8;      /* angle fields are eight columns wide */
 
-   while( *buff == ' ')
+   while( buff < end && *buff == ' ')
       buff++;
-   while( *buff != ' ')
+   while( buff < end && *buff != ' ')
       {
       if( *buff != '.')
          rval = rval * 10 + (int)( *buff - '0');
-- 
2.43.0


From 39e9c78fefbd517fc4278354dd889dbc17427b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:30 +0000
Subject: [PATCH 02/61] fix: non-digit exponent of a TLE drag term looped about
 2^32 times

---
 src/get_el.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/get_el.c b/src/get_el.c
index ff10715..d072eea 100644
--- a/src/get_el.c
+++ b/src/get_el.c
@@ -55,7 +55,7 @@ static double sci( const char *string)
       if( ival)
          {
          rval = (double)ival * 1.e-5;
-         if( string[7] != '0')
+         if( string[7] > '0' && string[7] <= '9')
             {
             int exponent = string[7] - '0';
 
-- 
2.43.0


From f52ae7b91b22d8ec818df34c9673db66621fa399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:30 +0000
Subject: [PATCH 03/61] fix: a TLE line without a checksum digit could pass as
 correct

---
 src/get_el.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/get_el.c b/src/get_el.c
index d072eea..1b03d4c 100644
--- a/src/get_el.c
+++ b/src/get_el.c
@@ -95,6 +95,10 @@ int DLL_FUNC tle_checksum( const char *buff)
          return( -2);
       buff++;
       }
+   if( *buff <= ' ')                /* line ends before the checksum */
+      return( -3);
+   if( *buff < '0' || *buff > '9')  /* not a checksum digit */
+      return( -2);
    rval -= *buff++ - '0';
    if( *buff > ' ')                 /* line unterminated */
       rval = -3;
-- 
2.43.0


From 71a27d249f2e0bda38d31110aece71920455ffc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:00 +0000
Subject: [PATCH 04/61] fix: malformed state-vector TLE aborted the program,
 its checksum errors were not reported

---
 src/get_el.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/get_el.c b/src/get_el.c
index 1b03d4c..359570b 100644
--- a/src/get_el.c
+++ b/src/get_el.c
@@ -146,19 +146,24 @@ vx, vy, vz are in 10^-4 m/s,  range +/- 94% c.  The state vectors
 are in the geocentric ecliptic plane of date.  See 'sdp4.cpp' for
 a discussion of how they're actually used.  */
 
-static double get_high_value( const char *iptr)
+static double get_high_value( const char *iptr, int *err)
 {
    int64_t rval = 0;
 
-   assert( *iptr == '+' || *iptr == '-');
-   if( *iptr == '+' || *iptr == '-')
+   if( *iptr != '+' && *iptr != '-')
+      *err = -5;
+   else
       {
       int i, digit;
 
       for( i = 1; i < 9; i++)
          {
          digit = mutant_dehex( iptr[i]);
-         assert( digit >= 0);
+         if( digit < 0)
+            {
+            *err = -5;
+            return( 0.);
+            }
          rval = rval * (int64_t)36 + (int64_t)digit;
          }
       if( *iptr == '-')
@@ -336,10 +341,10 @@ int DLL_FUNC parse_elements( const char *line1, const char *line2, tle_t *sat)
 
          for( i = 0; i < 3; i++)
             {
-            state_vect[i]     = get_high_value( line1 + 33 + i * 10);
-            state_vect[i + 3] = get_high_value( line2 + 33 + i * 10) * 1e-4;
+            state_vect[i]     = get_high_value( line1 + 33 + i * 10, &rval);
+            state_vect[i + 3] = get_high_value( line2 + 33 + i * 10, &rval) * 1e-4;
             }
-         return( 0);
+         return( rval ? rval : checksum_problem);
          }
 
       sat->xmo = (double)get_angle( line2 + 43) * (PI / 180e+4);
-- 
2.43.0


From 14764427cedf9f2cb55cea563d2c3187ba4e4a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:18 +0000
Subject: [PATCH 05/61] fix: state-vector elements (type H) were not recognised
 when choosing the model

---
 src/basics.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basics.c b/src/basics.c
index ebd3b88..319729b 100644
--- a/src/basics.c
+++ b/src/basics.c
@@ -37,7 +37,7 @@ double FMod2p( const double x)
 #define EPHEM_TYPE_SDP4       '3'
 #define EPHEM_TYPE_SGP8       '4'
 #define EPHEM_TYPE_SDP8       '5'
-#define EPHEM_TYPE_HIGH       'h'
+#define EPHEM_TYPE_HIGH       'H'
 
 /*------------------------------------------------------------------*/
 
-- 
2.43.0


From 801ad0361cfc06f5e5585df01e8a5ce38e0a5880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:41 +0000
Subject: [PATCH 06/61] fix: precession near a pole gave Dec beyond 90 deg and
 unnormalised RA (HEALPix aborted)

---
 src/observe.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/observe.c b/src/observe.c
index d41d23b..de45603 100644
--- a/src/observe.c
+++ b/src/observe.c
@@ -119,8 +119,14 @@ void DLL_FUNC epoch_of_date_to_j2000( const double jd, double *ra, double *dec)
   *ra -= t_centuries * ra_rate * 100.;
   *dec -= t_centuries * dec_rate * 100.;
 
+/* Pole crossed: back to Dec in the -pi/2, pi/2 range */
+  if ( *dec > PI/2. || *dec < -PI/2. ) {
+	*dec = (*dec > 0. ? PI : -PI) - *dec;
+	*ra += PI;
+  }
+
 /* LN add: RA in 0 - 2pi range */
-  //*ra = fmod(*ra + PI*10., TWOPI);
+  *ra = fmod(*ra, TWOPI);
   if ( *ra < 0. ) 
 	*ra += TWOPI;
   else if ( *ra >= TWOPI )
-- 
2.43.0


From e5ef33f8c4dec2e769ffb5ebbbe5cafab46fc152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:38 +0000
Subject: [PATCH 07/61] fix: separation of antipodal directions could be NaN

---
 src/skysep_h.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skysep_h.c b/src/skysep_h.c
index a93a565..d5bf7f4 100644
--- a/src/skysep_h.c
+++ b/src/skysep_h.c
@@ -21,6 +21,6 @@ double skysep_h(const double theta1, const double phi1, const double theta2, con
   sin2a *= sin2a;
   sin2d = sin((phi2-phi1)/2.);
   sin2d *= sin2d;
-  return (2 * asin( sqrt(sin2d + cos(phi1)*cos(phi2)*sin2a) ) * RAD2DEG);
+  return (2 * asin( fmin(1., sqrt(sin2d + cos(phi1)*cos(phi2)*sin2a)) ) * RAD2DEG);
 }
 
-- 
2.43.0


From 5d8f7e5d6ac3650c484176a4144f53a703b3243c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:38 +0000
Subject: [PATCH 08/61] fix: azimuth and parallactic angle of a meridian
 transit South of the zenith

---
 src/dechalat2alt.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/dechalat2alt.c b/src/dechalat2alt.c
index c2cde5a..7ccff00 100644
--- a/src/dechalat2alt.c
+++ b/src/dechalat2alt.c
@@ -22,13 +22,11 @@ void dechalat2alt(double dec, double ha, double lat, double *alt, double *az, do
 
 /* Manage peculiar cases and calculate Azimuth */
   if ( ha == 0. ) {
-	*az = 0.;
+	*az = (dec < lat ? 180. : 0.);  /* on the meridian, South or North of zenith */
 	cosha = 1.;
-	cosaz = 1.;
 	sinha = 0.;
-	sinaz = 0.;
 	sinp  = 0.;
-	cosp = -1;
+	cosp = (dec < lat ? 1. : -1.);
 	sinlat = sin(lat);
   } else {
 	ha = ha * 15 * DEG2RAD;
-- 
2.43.0


From d265c3119bc4b8178f591627579fd693bd6deceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:38 +0000
Subject: [PATCH 09/61] fix: azimuth for a site at a pole was in radians,
 parallactic angle at a celestial pole undefined

---
 src/dechalat2alt.c | 32 +++++++-------------------------
 1 file changed, 7 insertions(+), 25 deletions(-)

diff --git a/src/dechalat2alt.c b/src/dechalat2alt.c
index 7ccff00..eddc926 100644
--- a/src/dechalat2alt.c
+++ b/src/dechalat2alt.c
@@ -14,7 +14,6 @@ void dechalat2alt(double dec, double ha, double lat, double *alt, double *az, do
 {
   double cosha, sinha, sinlat;
   double sinp, cosp;  /* sin and cos of parallactic angle */
-  double sinaz, cosaz;
 
   lat = lat * DEG2RAD;
   double cosdec = cos(dec), sindec = sin(dec), coslat = cos(lat);
@@ -32,33 +31,16 @@ void dechalat2alt(double dec, double ha, double lat, double *alt, double *az, do
 	ha = ha * 15 * DEG2RAD;
 	cosha = cos(ha);
 	sinha = sin(ha);
-	if (coslat < 1e-6) {  /* very close to a pole: assume +/- 90 deg */
-	  coslat = 0.;
-	  if (lat < 0.)
-	    sinlat = -1.;
-	  else
-	    sinlat = 1.;
-          *az = ha;
-	  sinaz = sinha;
-	  cosaz = cosha;
-	  sinp  = 0.;
-	  cosp  = -1. * cosha*cosha - sinha*sinha;
-	} else {
-	  sinlat = sin(lat);
+	sinlat = sin(lat);
 
-          *az = atan2(-1. * cosdec*sinha, sindec*coslat - cosdec*cosha*sinlat);  /* due east, due north comp. */
+	*az = atan2(-1. * cosdec*sinha, sindec*coslat - cosdec*cosha*sinlat);  /* due east, due north comp. */
 
-	  sinaz = sin(*az);
-	  cosaz = cos(*az);
+	*az *= RAD2DEG;
+	if (*az < 0.) *az += 360.;  /* force 0 -> 360 */
+	if (*az >= 360.) *az -= 360.;
 
-	  *az *= RAD2DEG;  /* done with taking trig functions of it ... */
-          if (*az < 0.) *az += 360.;  /* force 0 -> 360 */
-          if (*az >= 360.) *az -= 360.;
-          if (cosdec != 0.) { /* protect divide by zero ... */
-	    sinp = -1. * sinaz * coslat / cosdec;
-	    cosp = -1. * cosaz * cosha - sinaz * sinha * sinlat;
-	  }
-	}
+	sinp = sinha * coslat;
+	cosp = cosdec * sinlat - sindec * cosha * coslat;
   }
 
 /* Parallactic angle */
-- 
2.43.0


From 8c5ef553b9e416d4b2aea31d0a1805ae4c083277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:38 +0000
Subject: [PATCH 10/61] fix: altitude was 90 deg whenever Dec equals the
 latitude, or NaN from rounding

---
 src/dechalat2alt.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/dechalat2alt.c b/src/dechalat2alt.c
index eddc926..d9fb5b9 100644
--- a/src/dechalat2alt.c
+++ b/src/dechalat2alt.c
@@ -54,8 +54,5 @@ void dechalat2alt(double dec, double ha, double lat, double *alt, double *az, do
    }
 
 /* Altitude */
-  if ( fabs(dec - lat) < 1e-6 )
-	*alt = 90.;
-  else
-	*alt = RAD2DEG * asin(cosdec*cosha*coslat + sindec*sinlat);
+  *alt = RAD2DEG * asin(fmax(-1., fmin(1., cosdec*cosha*coslat + sindec*sinlat)));
 }
-- 
2.43.0


From b63a69b07f82601455586601d7c4ca9f25d8d98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:13 +0000
Subject: [PATCH 11/61] fix: GMST was negative for dates before 2000, or 24 h

---
 src/lmst_hr.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lmst_hr.c b/src/lmst_hr.c
index 789b91e..7eecbdf 100644
--- a/src/lmst_hr.c
+++ b/src/lmst_hr.c
@@ -41,13 +41,14 @@ double lmst_hr(const double jd, double longit, double *gmst)
   *gmst = sid_g + 1.00273790934 * ut;
   sid_g = *gmst + longit/360.;
   *gmst *= 24.;
-  while (*gmst > 24.)
-	*gmst -= 24.;
+  *gmst -= 24. * floor(*gmst / 24.);
 
   sid_int = sid_g;
   sid_g = (sid_g - (double)sid_int) * 24.;
   if (sid_g < 0.)
 	sid_g += 24.;
+  if (sid_g >= 24.)  /* from rounding */
+	sid_g -= 24.;
 
   return(sid_g);
 }
-- 
2.43.0


From 5c01024e5621ef3c8f32b3fab860c49a754113ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:13 +0000
Subject: [PATCH 12/61] fix: single precision constants in the zenith RA
 sidereal time (0.2 s per century)

---
 src/zenith_site_ra.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/zenith_site_ra.c b/src/zenith_site_ra.c
index b95c5c8..5cc4527 100644
--- a/src/zenith_site_ra.c
+++ b/src/zenith_site_ra.c
@@ -34,13 +34,13 @@ void ut2gmst(double ut1, double *gmst)
   T0 = (jd0 - JD2000)/36525.0;
 
 /* Greenwich Mean Sidereal Time at 0h UT of date */
-  *gmst = (((-2.0e-6*T0 - 3.e-7)*T0 + 9.27701e-2)*T0 + 8640184.7942063F)*T0
-          + 24110.54841F;
+  *gmst = (((-2.0e-6*T0 - 3.e-7)*T0 + 9.27701e-2)*T0 + 8640184.7942063)*T0
+          + 24110.54841;
 #ifdef DEBUG
 printf("GMST0: %lf\n", *gmst);
 #endif
   msday = (((-(4. * 2.0e-6)*T0 - (3. * 3.e-7))*T0 + (2. * 9.27701e-2))*T0
-          + 8640184.7942063F)/(SEC_IN_DAY*36525.) + 1.0;
+          + 8640184.7942063)/(SEC_IN_DAY*36525.) + 1.0;
 
 /* GMST at this UT (in hours) */
   *gmst += msday*secs;
-- 
2.43.0


From 4f8cb40cd576d23e6694df909bc3f934029f4bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:13 +0000
Subject: [PATCH 13/61] fix: mjd2date buffer overflow for years after 9999 or
 before -999, NaN accepted

---
 src/mjd2date.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mjd2date.c b/src/mjd2date.c
index 8105fd2..69f7a17 100644
--- a/src/mjd2date.c
+++ b/src/mjd2date.c
@@ -22,7 +22,7 @@ static  const double HALF_S_IN_DAYS = 0.000005787037037037037e0;
 /* No fractional seconds */
 char *mjd2date(double mjd)
 { 
-  static char date[20];
+  static char date[32];  /* years may have more than 4 digits */
   int iy, im, id, h, mm, s;
   long jd, l, n, i, k;
   double dj, d1, d2, f1, f2, f, d;
@@ -30,7 +30,7 @@ char *mjd2date(double mjd)
 
 /* Verify date is acceptable. */
   dj = DJ1 + mjd;
-  if (dj < DJMIN || dj > DJMAX) return 0;
+  if (!(dj >= DJMIN && dj <= DJMAX)) return 0;  /* NaN too */
 
 /* Copy the date, big then small, and re-align to midnight. */
   if (DJ1 >= mjd) {
@@ -76,7 +76,7 @@ char *mjd2date(double mjd)
 /* With fractional seconds (millisec) */
 char *mjd2datef(double mjd)
 { 
-  static char date[24];
+  static char date[32];
   int iy, im, id, h, mm, s, fs;
   long jd, l, n, i, k;
   double dj, d1, d2, f1, f2, f, d;
@@ -84,7 +84,7 @@ char *mjd2datef(double mjd)
 
 /* Verify date is acceptable. */
   dj = DJ1 + mjd;
-  if (dj < DJMIN || dj > DJMAX) return 0;
+  if (!(dj >= DJMIN && dj <= DJMAX)) return 0;  /* NaN too */
 
 /* Copy the date, big then small, and re-align to midnight. */
   if (DJ1 >= mjd) {
-- 
2.43.0


From 950a89f4609153576505e307b674c45cd99e5d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 14/61] fix: calendar dates with fields out of range were
 converted instead of reported as errors

---
 src/date2mjd_nf.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/date2mjd_nf.c b/src/date2mjd_nf.c
index 695a0ee..4d7b6b1 100644
--- a/src/date2mjd_nf.c
+++ b/src/date2mjd_nf.c
@@ -16,11 +16,17 @@ static const double JD_OFF = 2400000.5;
 
 int date2mjd_nf(const char *date, double *mjd) {
 
+  static const int mdays[] = {31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
   int nr, y, m, d, h, mm, s;
   long a,b;
 
   nr = sscanf( date, "%4d-%2d-%2dT%2d:%2d:%2d", &y, &m, &d, &h, &mm, &s);
 
+  if ( nr == 6 && (m < 1 || m > 12 || d < 1 || d > mdays[m-1] ||
+       (m == 2 && d == 29 && (y % 4 || (y % 100 == 0 && y % 400))) ||
+       h < 0 || h > 23 || mm < 0 || mm > 59 || s < 0 || s > 60) )
+    nr = 0;
+
   if ( nr == 6 ) {
     if ( m<=2 ) {
       y--;
-- 
2.43.0


From a721c8a75fefd6b211d2e72a39371d0326f726b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:16 +0000
Subject: [PATCH 15/61] fix: switches with attached characters looped forever,
 options without their value crashed, detached unknown options were misnamed

---
 src/sat_skymap.c     | 22 ++++++++++++++--------
 src/sat_visibility.c | 14 ++++++++++----
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 038ea04..a0a48e0 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -402,10 +402,16 @@ int main(int argc, char **argv)
     if ( argv[i][0] == '-' ) {
 		opt = argv[i][1];
 		par_pos = 2;
-		if ( argv[i][2] == 0 ) {  /* blank after option */
+		if ( opt && argv[i][2] == 0 ) {  /* blank after option */
 //if ( argv[i+1][0] != '-' )  /* No, because of possible negative numbers after the param */
 		  ++i;
 		  par_pos = 0;
+		  if ( i == argc && strchr("adDijlnprsSt", opt) ) {
+		    open_json();
+		    sprintf(errmsg, "Missing value for command-line option '-%c'", opt);
+		    close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		    exit(-2);
+		  }
 		}
 	switch( opt )
 	{
@@ -416,27 +422,27 @@ int main(int argc, char **argv)
  	  case 'E':
 		p.geoloc_reference = true;
 		p.geoloc_requested = true;
-		i--;
+		if ( !par_pos ) i--;
 		break;
  	  case 'G':
 		p.geoloc_requested = true;
-		i--;
+		if ( !par_pos ) i--;
 		break;
  	  case 'H':
 		p.haversine = true;
-		i--;
+		if ( !par_pos ) i--;
 		break;
  	  case 'I':
 		p.info_only = true;
-		i--;
+		if ( !par_pos ) i--;
 		break;
  	  case 'T':
 		p.use_deftledir = true;
-		i--;
+		if ( !par_pos ) i--;
 		break;
  	  case 'V':
 		p.sunlit_only = true;
-		i--;
+		if ( !par_pos ) i--;
 		break;
 
 	  /* Parameters */
@@ -520,7 +526,7 @@ int main(int argc, char **argv)
 		break;
           default:
 		open_json();
-		sprintf(errmsg, "Unrecognized command-line option '%s'", argv[i]);
+		sprintf(errmsg, "Unrecognized command-line option '%s'", argv[par_pos ? i : i - 1]);
   		close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(-2);
 		break;
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index d9d0e06..4a65e0f 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -577,10 +577,16 @@ int main(int argc, char **argv)
     if ( argv[i][0] == '-' ) {
 		opt = argv[i][1];
 		par_pos = 2;
-		if ( argv[i][2] == 0 ) {  /* blank after option */
+		if ( opt && argv[i][2] == 0 ) {  /* blank after option */
 //if ( argv[i+1][0] != '-' )  /* No, because of possible negative numbers after the param */
 		  ++i;
 		  par_pos = 0;
+		  if ( i == argc && strchr("adDijlrst", opt) ) {
+		    open_json();
+		    sprintf(errmsg, "Missing value for command-line option '-%c'", opt);
+		    close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found);
+		    exit(-2);
+		  }
 		}
 	switch( opt )
 	{
@@ -590,11 +596,11 @@ int main(int argc, char **argv)
 		exit(0);
  	  case 'N':
 		p.skip_daytime = true;
-		i--;
+		if ( !par_pos ) i--;
 		break;
  	  case 'T':
 		p.use_deftledir = true;
-		i--;
+		if ( !par_pos ) i--;
 		break;
 
 	  /* Parameters */
@@ -661,7 +667,7 @@ int main(int argc, char **argv)
 		break;
           default:
 		open_json();
-		sprintf(errmsg, "Unrecognized command-line option '%s'", argv[i]);
+		sprintf(errmsg, "Unrecognized command-line option '%s'", argv[par_pos ? i : i - 1]);
   		close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found);
 		exit(-2);
 		break;
-- 
2.43.0


From 8a4b26552015f545258f08c63c3f542854a8b3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 16/61] fix: fixed-size buffers overflowed by long option
 values, file names and out-of-range MJD

---
 src/sat_skymap.c         | 57 ++++++++++++++++++++++------------------
 src/sat_skymap_def.h     |  6 ++---
 src/sat_visibility.c     | 51 +++++++++++++++++++----------------
 src/sat_visibility_def.h |  7 +++--
 4 files changed, 66 insertions(+), 55 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index a0a48e0..78eeac5 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -346,8 +346,8 @@ void sat_geoLocation(double gmst, double *pos,  Geoloc *geo) {
 
 int main(int argc, char **argv)
 {
-  char errmsg[128] = {""}, tle_path[128] = {"."}, line1[100], line2[100],
-	sat_name[25], tle_path_file[200], opt, *endptr;
+  char errmsg[128] = {""}, *tle_path = ".", line1[100], line2[100],
+	sat_name[25], tle_path_file[8192], opt, *endptr;
   double jd, rho_sin_phi, rho_cos_phi, observer_loc[3], observer_loc2[3],
 	 target_ra, target_dec, target_lon = 0, target_lat = 0;
   int i, par_pos, status = 0, n_sats_found = 0, n_sats = 0, n_sunlit_sats = 0,
@@ -359,7 +359,7 @@ int main(int argc, char **argv)
 
   if ( argc < 2 ) {
 	open_json();
-	sprintf(errmsg, "Example usage:\n %s default.tle -l-29.25627,-70.73805,2400 -p90.5,-30.3 -j58861.5 -r20", progname);
+	snprintf(errmsg, sizeof(errmsg), "Example usage:\n %s default.tle -l-29.25627,-70.73805,2400 -p90.5,-30.3 -j58861.5 -r20", progname);
  	close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(0);
   }
@@ -372,7 +372,7 @@ int main(int argc, char **argv)
   p.lon = 0.;  //-70.7380;
   p.ht_in_meters = 2400.;
   p.mjd = 58861.5;        /* 13 Jan 2020 12h UT */
-  strcpy(p.date, "2020-01-13T12:00:00");
+  p.date = "2020-01-13T12:00:00";
   p.ra_deg = 0.;  //90.5;        /* Default search coords in degrees */
   p.de_deg = 0.;  //-30.3;
   p.search_radius = 20.;  /* Default search radius in degrees */
@@ -389,8 +389,8 @@ int main(int argc, char **argv)
   p.use_deftledir = false;  /* If default directory with TLE files should be used (def. ./) */
   p.altrng_requested = false;  /* If altitude range filter requested */
   p.sunlit_only = false;  /* If only data for illuminated satellites requested */
-  p.intl_desig[0] = '\0';
-  p.satname[0] = '\0';
+  p.intl_desig = "";
+  p.satname = "";
   p.norad_n = 0;
   p.alt_min = 0;
   p.alt_max = 1e32;
@@ -457,15 +457,15 @@ int main(int argc, char **argv)
 		p.geoloc_requested = true;
 		break;
           case 'd':
-		strcpy(p.date, argv[i] + par_pos);
+		p.date = argv[i] + par_pos;
 		date2mjd_nf(argv[i] + par_pos, &p.mjd);
 		break;
  	  case 'D':
-		strcpy(tle_path, argv[i] + par_pos);
+		tle_path = argv[i] + par_pos;
 		p.use_deftledir = false;
 		break;
           case 'i':
-		strcpy(p.intl_desig, argv[i] + par_pos);
+		p.intl_desig = argv[i] + par_pos;
 		len_intl_desig = strlen(p.intl_desig);
 		p.single_sat_i = true;
 		p.altrng_requested = false;  // No altitude filter
@@ -473,7 +473,12 @@ int main(int argc, char **argv)
 		break;
           case 'j':
 		p.mjd = atof(argv[i] + par_pos);
-		strcpy(p.date, mjd2date(p.mjd));
+		if ( !(p.date = mjd2date(p.mjd)) ) {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "MJD out of range. Read '%s'", argv[i] + par_pos);
+  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		  exit(-1);
+		}
 		break;
           case 'l':
 		sscanf(argv[i] + par_pos, "%lf,%lf,%lf", &p.lat, &p.lon, &p.ht_in_meters);
@@ -482,7 +487,7 @@ int main(int argc, char **argv)
 		  p.lon += 360;
 		if ( p.lat < -90. || p.lat > 90. )  {
 		  open_json();
-		  sprintf(errmsg, "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
+		  snprintf(errmsg, sizeof(errmsg), "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
   		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
@@ -495,13 +500,13 @@ int main(int argc, char **argv)
 		sscanf(argv[i] + par_pos, "%lf,%lf", &p.ra_deg, &p.de_deg);
 		if ( p.ra_deg < 0. || p.ra_deg > 360. )  {
 		  open_json();
-		  sprintf(errmsg, "RA must be in the range [0, 360[ degrees. Read '%lf'", p.ra_deg);
+		  snprintf(errmsg, sizeof(errmsg), "RA must be in the range [0, 360[ degrees. Read '%lf'", p.ra_deg);
   		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
 		if ( p.de_deg < -90. || p.de_deg > 90. )  {
 		  open_json();
-		  sprintf(errmsg, "Dec must be in the range [-90, +90] degrees. Read '%lf'", p.de_deg);
+		  snprintf(errmsg, sizeof(errmsg), "Dec must be in the range [-90, +90] degrees. Read '%lf'", p.de_deg);
   		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
@@ -517,7 +522,7 @@ int main(int argc, char **argv)
 		in_region = false;
 		break;
           case 'S':
-		strcpy(p.satname, argv[i] + par_pos);
+		p.satname = argv[i] + par_pos;
 		len_satname = strlen(p.satname);
 		p.satname_filter = true;
 		break;
@@ -526,7 +531,7 @@ int main(int argc, char **argv)
 		break;
           default:
 		open_json();
-		sprintf(errmsg, "Unrecognized command-line option '%s'", argv[par_pos ? i : i - 1]);
+		snprintf(errmsg, sizeof(errmsg), "Unrecognized command-line option '%s'", argv[par_pos ? i : i - 1]);
   		close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(-2);
 		break;
@@ -537,7 +542,7 @@ int main(int argc, char **argv)
 
 /* Use default TLE repository dir. ? */
   if ( p.use_deftledir )
-	strcpy(tle_path, DEF_TLEDIR);
+	tle_path = DEF_TLEDIR;
 
   if ( !in_geopos ) {
 	Usage();
@@ -552,7 +557,7 @@ int main(int argc, char **argv)
 	p.lon * DEG2RAD, rho_cos_phi, rho_sin_phi, observer_loc2);
  
   const short fname_len = 64;
-  char *s, row[fname_len], norad_name[7], tle_list_file[200];
+  char *s, row[fname_len], norad_name[7], tle_list_file[8192];
   FILE *lisfile, *ifile;
 
   open_json();
@@ -566,9 +571,9 @@ int main(int argc, char **argv)
   if ( *argv[iarg] == '@' ) {
 	input_list = true;
 	//tle_list_file = ++argv[1];
-	sprintf(tle_list_file, "%s/%s", tle_path, ++argv[iarg]);
+	snprintf(tle_list_file, sizeof(tle_list_file), "%s/%s", tle_path, ++argv[iarg]);
 	if ( !(lisfile = fopen(tle_list_file, "rb")) ) {
-		sprintf(errmsg, "Could not open input file %s", tle_list_file);
+		snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_list_file);
   		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(2);
 	}
@@ -679,9 +684,9 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
     char *lastchar;
     if ( !input_list ) {
 	if ( strchr(p.tle_file_name, '/') == NULL )
-	  sprintf(tle_path_file, "%s/%s", tle_path, p.tle_file_name);
+	  snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, p.tle_file_name);
 	else
-	  strcpy(tle_path_file, p.tle_file_name);
+	  snprintf(tle_path_file, sizeof(tle_path_file), "%s", p.tle_file_name);
 	read_tle_list = false;
     } else {
 
@@ -695,19 +700,19 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	  *lastchar = (char) 0;
 	if ( strlen(row) == 0 )  /* Skip empty lines */
 	  continue;
-	sprintf(tle_path_file, "%s/%s", tle_path, tle_file_name);
+	snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, tle_file_name);
     }
 //printf("\ntle_path_file: %s\n\n", tle_path_file);
  
     if ( !(ifile = fopen(tle_path_file, "rb")) ) {  /* Report error message and stop */
-	sprintf(errmsg, "Could not open input file %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_path_file);
   	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(2);
     }
 
 
     if ( !fgets( line1, sizeof(line1), ifile) ) {
-	sprintf(errmsg, "Could not read first TLE line from file %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Could not read first TLE line from file %s", tle_path_file);
 	close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(-2);
     }
@@ -737,10 +742,10 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 			(atoi( tle.intl_desig) > 57000 ? "19" : "20"),
 			tle.intl_desig, tle.intl_desig + 2);
 
-		if ( !memcmp(intl_desig, p.intl_desig, len_intl_desig) )
+		if ( !strncmp(intl_desig, p.intl_desig, len_intl_desig) )
 		  single_sat_found = true;
 	} else if ( p.satname_filter ) {
-		if ( memcmp(sat_name, p.satname, len_satname) )
+		if ( strncmp(sat_name, p.satname, len_satname) )
 		continue;
 	}
  
diff --git a/src/sat_skymap_def.h b/src/sat_skymap_def.h
index fd2f72d..f62ea7e 100644
--- a/src/sat_skymap_def.h
+++ b/src/sat_skymap_def.h
@@ -23,9 +23,9 @@ const char *progname = "sat_skymap",
 
   typedef struct myParams {
 	  char *tle_file_name,
-		date[24],
-		intl_desig[12],
-		satname[24];
+		*date,
+		*intl_desig,
+		*satname;
 	 double lat,
 		lon,
 		ht_in_meters,
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 4a65e0f..6521380 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -540,8 +540,8 @@ void get_sat_PA_and_speed(double t_since) {
 
 int main(int argc, char **argv)
 {
-  char errmsg[128] = {""}, tle_path[128] = {"."}, line1[100], line2[100],
-	sat_name[25], tle_path_file[200], opt, *endptr;
+  char errmsg[128] = {""}, *tle_path = ".", line1[100], line2[100],
+	sat_name[25], tle_path_file[8192], opt, *endptr;
   double jd[2], rho_sin_phi, rho_cos_phi,
 	 target_ra_rad, target_dec_rad;
   int i, par_pos, status = 0, n_sats_found = 0,
@@ -552,7 +552,7 @@ int main(int argc, char **argv)
 
   if ( argc < 2 ) {
 	open_json();
-	sprintf(errmsg, "Example usage:\n %s stations.txt -l-29.25627,-70.73805,2400 -j58941.72,58941.73 -s 25544", progname);
+	snprintf(errmsg, sizeof(errmsg), "Example usage:\n %s stations.txt -l-29.25627,-70.73805,2400 -j58941.72,58941.73 -s 25544", progname);
  	close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found);
 	exit(0);
   }
@@ -566,8 +566,7 @@ int main(int argc, char **argv)
   p.single_sat_n = false;      /* If enquire for just 1 satellite using its NORAD number */
   p.use_deftledir = false;     /* If default directory with TLE files should be used (def. ./) */
   p.altrng_requested = false;  /* If altitude range filter requested */
-  p.intl_desig[0] = '\0';
-  p.satname[0] = '\0';
+  p.intl_desig = "";
   p.alt_max = 1e32;
 
 
@@ -623,11 +622,11 @@ int main(int argc, char **argv)
 		date2mjd_nf(p.date[1], &p.mjd[1]);
 		break;
  	  case 'D':
-		strcpy(tle_path, argv[i] + par_pos);
+		tle_path = argv[i] + par_pos;
 		p.use_deftledir = false;
 		break;
           case 'i':
-		strcpy(p.intl_desig, argv[i] + par_pos);
+		p.intl_desig = argv[i] + par_pos;
 		len_intl_desig = strlen(p.intl_desig);
 		p.single_sat_i = true;
 		p.altrng_requested = false;  // No altitude filter
@@ -638,8 +637,16 @@ int main(int argc, char **argv)
 		        exit(0);
 		}
 		sscanf(argv[i] + par_pos, "%lf,%lf", &p.mjd[0], &p.mjd[1]);
-		strcpy(p.date[0], mjd2date(p.mjd[0]));
-		strcpy(p.date[1], mjd2date(p.mjd[1]));
+		for ( int k = 0; k < 2; k++ ) {
+		  char *mjd_date = mjd2date(p.mjd[k]);
+		  if ( !mjd_date ) {
+		    open_json();
+		    snprintf(errmsg, sizeof(errmsg), "MJD out of range. Read '%s'", argv[i] + par_pos);
+		    close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
+		    exit(-1);
+		  }
+		  strcpy(p.date[k], mjd_date);
+		}
 		break;
           case 'l':
 		sscanf(argv[i] + par_pos, "%lf,%lf,%lf", &p.lat, &p.lon, &p.ht_in_meters);
@@ -648,7 +655,7 @@ int main(int argc, char **argv)
 		  p.lon += 360;
 		if ( p.lat < -90. || p.lat > 90. )  {
 		  open_json();
-		  sprintf(errmsg, "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
+		  snprintf(errmsg, sizeof(errmsg), "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
   		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
 		  exit(-1);
 		}
@@ -667,7 +674,7 @@ int main(int argc, char **argv)
 		break;
           default:
 		open_json();
-		sprintf(errmsg, "Unrecognized command-line option '%s'", argv[par_pos ? i : i - 1]);
+		snprintf(errmsg, sizeof(errmsg), "Unrecognized command-line option '%s'", argv[par_pos ? i : i - 1]);
   		close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found);
 		exit(-2);
 		break;
@@ -679,7 +686,7 @@ int main(int argc, char **argv)
 
 /* Use default TLE repository dir. ? */
   if ( p.use_deftledir )
-	strcpy(tle_path, DEF_TLEDIR);
+	tle_path = DEF_TLEDIR;
 
   if ( !in_geopos ) {
 	Usage();
@@ -691,7 +698,7 @@ int main(int argc, char **argv)
   observer_cartesian_coords(jd[0], p.lon * DEG2RAD, rho_cos_phi, rho_sin_phi, geo.observer_loc);
  
   const short fname_len = 64;
-  char row[fname_len], norad_name[7], tle_list_file[200];
+  char row[fname_len], norad_name[7], tle_list_file[8192];
   FILE *lisfile, *ifile = NULL;
 
   open_json();
@@ -704,9 +711,9 @@ int main(int argc, char **argv)
 
   if ( *argv[iarg] == '@' ) {
 	input_list = true;
-	sprintf(tle_list_file, "%s/%s", tle_path, ++argv[iarg]);
+	snprintf(tle_list_file, sizeof(tle_list_file), "%s/%s", tle_path, ++argv[iarg]);
 	if ( !(lisfile = fopen(tle_list_file, "rb")) ) {
-		sprintf(errmsg, "Could not open input file %s", tle_list_file);
+		snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_list_file);
   		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
 		exit(2);
 	}
@@ -732,9 +739,9 @@ int main(int argc, char **argv)
     char *lastchar;
     if ( !input_list ) {
 	if ( strchr(p.tle_file_name, '/') == NULL )
-	  sprintf(tle_path_file, "%s/%s", tle_path, p.tle_file_name);
+	  snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, p.tle_file_name);
 	else
-	  strcpy(tle_path_file, p.tle_file_name);
+	  snprintf(tle_path_file, sizeof(tle_path_file), "%s", p.tle_file_name);
 	read_tle_list = false;
     } else {
 
@@ -748,17 +755,17 @@ int main(int argc, char **argv)
 	  *lastchar = (char) 0;
 	if ( strlen(row) == 0 )  /* Skip empty lines */
 	  continue;
-	sprintf(tle_path_file, "%s/%s", tle_path, tle_file_name);
+	snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, tle_file_name);
     }
  
     if ( !(ifile = fopen(tle_path_file, "rb")) ) {  /* Report error message and stop */
-	sprintf(errmsg, "Could not open input file %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_path_file);
   	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
 	exit(2);
     }
 
     if ( !fgets( line1, sizeof(line1), ifile) ) {
-	sprintf(errmsg, "Could not read first TLE line from file %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Could not read first TLE line from file %s", tle_path_file);
 	close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found);
 	exit(-2);
     }
@@ -783,7 +790,7 @@ int main(int argc, char **argv)
 			(atoi( tle.intl_desig) > 57000 ? "19" : "20"),
 			tle.intl_desig, tle.intl_desig + 2);
 
-		if ( !memcmp(intl_desig, p.intl_desig, len_intl_desig) )
+		if ( !strncmp(intl_desig, p.intl_desig, len_intl_desig) )
 		  single_sat_found = true;
 	}
  
@@ -808,7 +815,7 @@ int main(int argc, char **argv)
   fclose(ifile);
 
   if ( !single_sat_found ) {
-	sprintf(errmsg, "Satellite not found in %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Satellite not found in %s", tle_path_file);
 	close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found);
 	exit(1);
   }
diff --git a/src/sat_visibility_def.h b/src/sat_visibility_def.h
index 7552dfd..55a9832 100644
--- a/src/sat_visibility_def.h
+++ b/src/sat_visibility_def.h
@@ -23,9 +23,8 @@ const char *progname = "sat_visibility",
 
   typedef struct myParams {
 	  char *tle_file_name,
-		date[2][24],
-		intl_desig[12],
-		satname[24];
+		date[2][32],
+		*intl_desig;
 	 double lat,
 		lon,
 		ht_in_meters,
@@ -62,7 +61,7 @@ const char *progname = "sat_visibility",
   } Sun;
 
   typedef struct mySat {
-	   char cur_date[24];
+	   char cur_date[32];
 	double  cur_mjd,
 		ra,
 		dec,
-- 
2.43.0


From 0c560910ec8ef5c42aac46aa4140e1411a396e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:56 +0000
Subject: [PATCH 17/61] fix: echoed run_command named the wrong argument when
 the @list was the last one

---
 src/sat_skymap.c     | 12 +++---------
 src/sat_visibility.c | 12 +++---------
 2 files changed, 6 insertions(+), 18 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 78eeac5..0a2d9f4 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -229,14 +229,8 @@ void add_satlatlon_json(Geoloc geo) {
 }
 
 void close_stat_json(int argc, char **argv, bool input_list, int status, char *errmsg, int n_sats_found, int n_sats, int n_sunlit_sats) {
-  int iarg = 1;
   printf(" \"run_command\": \"%s", progname);
-  if ( input_list ) {
-	printf (" @%s", argv[1]);
-	iarg++;
-  }
-
-  for ( int i = iarg; i < argc; i++ ) {
+  for ( int i = 1; i < argc; i++ ) {
 	printf (" %s", argv[i]);
   }
   printf("\", \"status\": %d, \"errmsg\": \"%s\", \"n_sats_found\": %d, \"n_sats\": %d,"
@@ -571,7 +565,7 @@ int main(int argc, char **argv)
   if ( *argv[iarg] == '@' ) {
 	input_list = true;
 	//tle_list_file = ++argv[1];
-	snprintf(tle_list_file, sizeof(tle_list_file), "%s/%s", tle_path, ++argv[iarg]);
+	snprintf(tle_list_file, sizeof(tle_list_file), "%s/%s", tle_path, argv[iarg] + 1);
 	if ( !(lisfile = fopen(tle_list_file, "rb")) ) {
 		snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_list_file);
   		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
@@ -599,7 +593,7 @@ int main(int argc, char **argv)
 
   sbuff[0] = '\0';
 
-  p.tle_file_name = argv[iarg];
+  p.tle_file_name = argv[iarg] + (input_list ? 1 : 0);
 
   if ( p.single_sat_n || p.single_sat_i ) {
 	single_sat = true;
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 6521380..98fe351 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -384,14 +384,8 @@ void add_sundata_json(char *label) {
 }
 
 void close_stat_json(int argc, char **argv, bool input_list, int status, char *errmsg, int n_sats_found) {
-  int iarg = 1;
   printf("\"run_command\": \"%s", progname);
-  if ( input_list ) {
-	printf (" @%s", argv[1]);
-	iarg++;
-  }
-
-  for ( int i = iarg; i < argc; i++ ) {
+  for ( int i = 1; i < argc; i++ ) {
 	printf (" %s", argv[i]);
   }
   printf("\", \"status\": %d, \"errmsg\": \"%s\", \"n_sats_found\": %d"
@@ -711,7 +705,7 @@ int main(int argc, char **argv)
 
   if ( *argv[iarg] == '@' ) {
 	input_list = true;
-	snprintf(tle_list_file, sizeof(tle_list_file), "%s/%s", tle_path, ++argv[iarg]);
+	snprintf(tle_list_file, sizeof(tle_list_file), "%s/%s", tle_path, argv[iarg] + 1);
 	if ( !(lisfile = fopen(tle_list_file, "rb")) ) {
 		snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_list_file);
   		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
@@ -719,7 +713,7 @@ int main(int argc, char **argv)
 	}
   }
 
-  p.tle_file_name = argv[iarg];
+  p.tle_file_name = argv[iarg] + (input_list ? 1 : 0);
 
   if ( !p.single_sat_n && !p.single_sat_i ) {
 	sprintf(errmsg, "Need to input a NORAD ID or an international designator.");
-- 
2.43.0


From c9cc57c77dd48b45d32136ce755cfe4aaec74ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:58 +0000
Subject: [PATCH 18/61] fix: echoed text (command, file, dates, names,
 messages) was not escaped, giving invalid JSON

---
 src/sat_skymap.c     | 44 +++++++++++++++++++++++++++++++++---------
 src/sat_visibility.c | 46 +++++++++++++++++++++++++++++++++++---------
 2 files changed, 72 insertions(+), 18 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 0a2d9f4..239eef6 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -185,6 +185,22 @@ void Usage() {
 }
 
 
+/*
+  Print a string as JSON string content (quotes, backslashes and control characters escaped)
+*/
+void put_json(const char *s) {
+  for ( ; *s; s++ ) {
+	unsigned char c = *s;
+	if ( c == '"' || c == '\\' )
+	  printf("\\%c", c);
+	else if ( c < 32 || c == 127 )
+	  printf("\\u%04x", c);
+	else
+	  putchar(c);
+  }
+}
+
+
 void open_json() {
   printf("{"
     "\"swinfo\": {"
@@ -193,11 +209,15 @@ void open_json() {
 }
 
 void add_params_json(Params p) {
-  printf("\"input_params\": {"
-    "\"tle_file\": \"%s\", \"location\": {\"lat\":%8.4lf, \"lon\":%9.4lf, \"alt\":%8.1lf}, \"region\": {\"ra\":%9.4lf, \"dec\":%8.4lf, \"radius\":%8.4lf, \"lmst\":%8.4lf, \"az\":%9.4lf, \"alt\":%8.4lf, \"parang\":%8.3lf}, "
-    "\"mjd\": %11.5lf, \"epoch_UTC\": \"%s\", \"gmst\":%8.4lf, \"delta_time_s\": %d, \"max_sats\": %d, "
+  printf("\"input_params\": {\"tle_file\": \"");
+  put_json(p.tle_file_name);
+  printf("\", \"location\": {\"lat\":%8.4lf, \"lon\":%9.4lf, \"alt\":%8.1lf}, \"region\": {\"ra\":%9.4lf, \"dec\":%8.4lf, \"radius\":%8.4lf, \"lmst\":%8.4lf, \"az\":%9.4lf, \"alt\":%8.4lf, \"parang\":%8.3lf}, "
+    "\"mjd\": %11.5lf, \"epoch_UTC\": \"",
+    p.lat, p.lon, p.ht_in_meters, p.ra_deg, p.de_deg, p.search_radius, p.lmst, p.az, p.alt, p.parang, p.mjd);
+  put_json(p.date);
+  printf("\", \"gmst\":%8.4lf, \"delta_time_s\": %d, \"max_sats\": %d, "
     "\"notes\": \"All coordinates and radius in degrees. GMST, LMST in hrs.\"}, ",
-    p.tle_file_name, p.lat, p.lon, p.ht_in_meters, p.ra_deg, p.de_deg, p.search_radius, p.lmst, p.az, p.alt, p.parang, p.mjd, p.date, p.gmst, p.delta_time, p.max_sats);
+    p.gmst, p.delta_time, p.max_sats);
 }
 
 void add_sundata_json(Sun sun) {
@@ -231,10 +251,13 @@ void add_satlatlon_json(Geoloc geo) {
 void close_stat_json(int argc, char **argv, bool input_list, int status, char *errmsg, int n_sats_found, int n_sats, int n_sunlit_sats) {
   printf(" \"run_command\": \"%s", progname);
   for ( int i = 1; i < argc; i++ ) {
-	printf (" %s", argv[i]);
+	putchar(' ');
+	put_json(argv[i]);
   }
-  printf("\", \"status\": %d, \"errmsg\": \"%s\", \"n_sats_found\": %d, \"n_sats\": %d,"
-	 " \"n_sunlit_sats\": %d}\n", status, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  printf("\", \"status\": %d, \"errmsg\": \"", status);
+  put_json(errmsg);
+  printf("\", \"n_sats_found\": %d, \"n_sats\": %d,"
+	 " \"n_sunlit_sats\": %d}\n", n_sats_found, n_sats, n_sunlit_sats);
 }
 
 
@@ -894,8 +917,11 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 		  printf(" \"satellites\": [");
 		}
 
-		printf("{\"name\": \"%s\", \"intl_desig\": \"%s\", \"norad_n\": %d, ",
-			sat_name, intl_desig, tle.norad_number);
+		printf("{\"name\": \"");
+		put_json(sat_name);
+		printf("\", \"intl_desig\": \"");
+		put_json(intl_desig);
+		printf("\", \"norad_n\": %d, ", tle.norad_number);
 
 		if ( p.geoloc_requested )
 			add_satlatlon_json(geo);
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 98fe351..8d4978e 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -329,6 +329,22 @@ void Usage() {
 }
 
 
+/*
+  Print a string as JSON string content (quotes, backslashes and control characters escaped)
+*/
+void put_json(const char *s) {
+  for ( ; *s; s++ ) {
+	unsigned char c = *s;
+	if ( c == '"' || c == '\\' )
+	  printf("\\%c", c);
+	else if ( c < 32 || c == 127 )
+	  printf("\\u%04x", c);
+	else
+	  putchar(c);
+  }
+}
+
+
 void open_json() {
   printf("{"
     "\"swinfo\": {"
@@ -337,11 +353,17 @@ void open_json() {
 }
 
 void add_params_json() {
-  printf("\"input_params\": {"
-    "\"tle_file\": \"%s\", \"location\": {\"lat\":%8.4lf, \"lon\":%9.4lf, \"alt\":%8.1lf}, \"region\": {\"ra\":%9.4lf, \"dec\":%8.4lf, \"radius\":%8.4lf, \"lmst\":%8.4lf, \"az\":%9.4lf, \"alt\":%8.4lf, \"parang\":%8.3lf}, "
-    "\"mjd_range\": [%11.5lf, %11.5lf], \"date_utc_range\": [\"%s\", \"%s\"], \"gmst\":%8.4lf, \"delta_time_s\": %d, "
+  printf("\"input_params\": {\"tle_file\": \"");
+  put_json(p.tle_file_name);
+  printf("\", \"location\": {\"lat\":%8.4lf, \"lon\":%9.4lf, \"alt\":%8.1lf}, \"region\": {\"ra\":%9.4lf, \"dec\":%8.4lf, \"radius\":%8.4lf, \"lmst\":%8.4lf, \"az\":%9.4lf, \"alt\":%8.4lf, \"parang\":%8.3lf}, "
+    "\"mjd_range\": [%11.5lf, %11.5lf], \"date_utc_range\": [\"",
+    p.lat, p.lon, p.ht_in_meters, p.ra_deg, p.de_deg, p.search_radius, p.lmst, p.az, p.alt, p.parang, p.mjd[0], p.mjd[1]);
+  put_json(p.date[0]);
+  printf("\", \"");
+  put_json(p.date[1]);
+  printf("\"], \"gmst\":%8.4lf, \"delta_time_s\": %d, "
     "\"notes\": \"All coordinates and radius in degrees. GMST, LMST in hrs.\"}, ",
-    p.tle_file_name, p.lat, p.lon, p.ht_in_meters, p.ra_deg, p.de_deg, p.search_radius, p.lmst, p.az, p.alt, p.parang, p.mjd[0], p.mjd[1], p.date[0], p.date[1], p.gmst, p.delta_time);
+    p.gmst, p.delta_time);
 }
 
 void add_fieldsdesc_json() {
@@ -386,10 +408,13 @@ void add_sundata_json(char *label) {
 void close_stat_json(int argc, char **argv, bool input_list, int status, char *errmsg, int n_sats_found) {
   printf("\"run_command\": \"%s", progname);
   for ( int i = 1; i < argc; i++ ) {
-	printf (" %s", argv[i]);
+	putchar(' ');
+	put_json(argv[i]);
   }
-  printf("\", \"status\": %d, \"errmsg\": \"%s\", \"n_sats_found\": %d"
-	 "}\n", status, errmsg, n_sats_found);
+  printf("\", \"status\": %d, \"errmsg\": \"", status);
+  put_json(errmsg);
+  printf("\", \"n_sats_found\": %d"
+	 "}\n", n_sats_found);
 }
 
 
@@ -962,8 +987,11 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 
 	add_fieldsdesc_json();
 	printf(" \"satellite\": ");
-	printf("{\"name\": \"%s\", \"intl_desig\": \"%s\", \"norad_n\": %d, ",
-		sat_name, intl_desig, tle.norad_number);
+	printf("{\"name\": \"");
+	put_json(sat_name);
+	printf("\", \"intl_desig\": \"");
+	put_json(intl_desig);
+	printf("\", \"norad_n\": %d, ", tle.norad_number);
 
 	sat_geoLocation(pos);
 	add_satlatlon_json("geoloc_start");
-- 
2.43.0


From 34a803a6f35fc5b603fbd7fbb228384bb6da68d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:31 +0000
Subject: [PATCH 19/61] fix: documented precedence of -d over -j and of -D over
 -T depended on the option order, malformed dates were used

---
 src/sat_skymap.c     | 36 +++++++++++++++++++++++++-----------
 src/sat_visibility.c | 43 +++++++++++++++++++++++++++----------------
 2 files changed, 52 insertions(+), 27 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 239eef6..c25fba6 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -369,6 +369,7 @@ int main(int argc, char **argv)
 	 target_ra, target_dec, target_lon = 0, target_lat = 0;
   int i, par_pos, status = 0, n_sats_found = 0, n_sats = 0, n_sunlit_sats = 0,
 	 len_intl_desig = 0, len_satname = 0;
+  char *date_arg = NULL, *mjd_arg = NULL, *dir_arg = NULL;
   bool in_region = false,  /* used for single satellite request */
 	in_geopos = false,  /* make sure Geo location is passed */
 	input_list = false;  /* if the input file is in fact a TLEs list */
@@ -474,12 +475,10 @@ int main(int argc, char **argv)
 		p.geoloc_requested = true;
 		break;
           case 'd':
-		p.date = argv[i] + par_pos;
-		date2mjd_nf(argv[i] + par_pos, &p.mjd);
+		date_arg = argv[i] + par_pos;
 		break;
  	  case 'D':
-		tle_path = argv[i] + par_pos;
-		p.use_deftledir = false;
+		dir_arg = argv[i] + par_pos;
 		break;
           case 'i':
 		p.intl_desig = argv[i] + par_pos;
@@ -489,13 +488,7 @@ int main(int argc, char **argv)
 		in_region = false;
 		break;
           case 'j':
-		p.mjd = atof(argv[i] + par_pos);
-		if ( !(p.date = mjd2date(p.mjd)) ) {
-		  open_json();
-		  snprintf(errmsg, sizeof(errmsg), "MJD out of range. Read '%s'", argv[i] + par_pos);
-  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
-		  exit(-1);
-		}
+		mjd_arg = argv[i] + par_pos;
 		break;
           case 'l':
 		sscanf(argv[i] + par_pos, "%lf,%lf,%lf", &p.lat, &p.lon, &p.ht_in_meters);
@@ -555,11 +548,32 @@ int main(int argc, char **argv)
 	}  // end switch
   }  // end if - for
 
+/* Requested epoch (MJD ignored if Calendar Date given) */
+  if ( date_arg ) {
+	p.date = date_arg;
+	if ( date2mjd_nf(p.date, &p.mjd) ) {
+	  open_json();
+	  snprintf(errmsg, sizeof(errmsg), "Calendar date not valid. Read '%s'", date_arg);
+	  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+	  exit(-1);
+	}
+  } else if ( mjd_arg ) {
+	p.mjd = atof(mjd_arg);
+	if ( !(p.date = mjd2date(p.mjd)) ) {
+	  open_json();
+	  snprintf(errmsg, sizeof(errmsg), "MJD out of range. Read '%s'", mjd_arg);
+	  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+	  exit(-1);
+	}
+  }
+
   jd = JD_OFF + p.mjd;  // From MJD to JD
 
 /* Use default TLE repository dir. ? */
   if ( p.use_deftledir )
 	tle_path = DEF_TLEDIR;
+  if ( dir_arg )  /* -T ignored */
+	tle_path = dir_arg;
 
   if ( !in_geopos ) {
 	Usage();
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 8d4978e..6b75731 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -565,6 +565,7 @@ int main(int argc, char **argv)
 	 target_ra_rad, target_dec_rad;
   int i, par_pos, status = 0, n_sats_found = 0,
 	 len_intl_desig = 0;
+  char *date_arg = NULL, *mjd_arg = NULL, *dir_arg = NULL;
   bool in_geopos = false,  /* make sure Geo location is passed */
 	input_list = false;  /* if the input file is in fact a TLEs list */
 
@@ -636,13 +637,10 @@ int main(int argc, char **argv)
 			Usage();
 		        exit(0);
 		}
-		sscanf(argv[i] + par_pos, "%19s,%19s", p.date[0], p.date[1]);
-		date2mjd_nf(p.date[0], &p.mjd[0]);
-		date2mjd_nf(p.date[1], &p.mjd[1]);
+		date_arg = argv[i] + par_pos;
 		break;
  	  case 'D':
-		tle_path = argv[i] + par_pos;
-		p.use_deftledir = false;
+		dir_arg = argv[i] + par_pos;
 		break;
           case 'i':
 		p.intl_desig = argv[i] + par_pos;
@@ -655,17 +653,7 @@ int main(int argc, char **argv)
 			Usage();
 		        exit(0);
 		}
-		sscanf(argv[i] + par_pos, "%lf,%lf", &p.mjd[0], &p.mjd[1]);
-		for ( int k = 0; k < 2; k++ ) {
-		  char *mjd_date = mjd2date(p.mjd[k]);
-		  if ( !mjd_date ) {
-		    open_json();
-		    snprintf(errmsg, sizeof(errmsg), "MJD out of range. Read '%s'", argv[i] + par_pos);
-		    close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
-		    exit(-1);
-		  }
-		  strcpy(p.date[k], mjd_date);
-		}
+		mjd_arg = argv[i] + par_pos;
 		break;
           case 'l':
 		sscanf(argv[i] + par_pos, "%lf,%lf,%lf", &p.lat, &p.lon, &p.ht_in_meters);
@@ -700,12 +688,35 @@ int main(int argc, char **argv)
 	}  // end switch
   }  // end if - for
 
+/* Requested range (MJDs ignored if Calendar Dates given) */
+  if ( date_arg ) {
+	if ( sscanf(date_arg, "%31[^,],%31s", p.date[0], p.date[1]) != 2 ||
+	     date2mjd_nf(p.date[0], &p.mjd[0]) || date2mjd_nf(p.date[1], &p.mjd[1]) ) {
+	  open_json();
+	  snprintf(errmsg, sizeof(errmsg), "Calendar dates not valid. Read '%s'", date_arg);
+	  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
+	  exit(-1);
+	}
+  } else if ( mjd_arg ) {
+	if ( sscanf(mjd_arg, "%lf,%lf", &p.mjd[0], &p.mjd[1]) != 2 ||
+	     !mjd2date(p.mjd[0]) || !mjd2date(p.mjd[1]) ) {
+	  open_json();
+	  snprintf(errmsg, sizeof(errmsg), "MJD range not valid. Read '%s'", mjd_arg);
+	  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
+	  exit(-1);
+	}
+	strcpy(p.date[0], mjd2date(p.mjd[0]));
+	strcpy(p.date[1], mjd2date(p.mjd[1]));
+  }
+
   jd[0] = JD_OFF + p.mjd[0];  // From MJD to JD
   jd[1] = JD_OFF + p.mjd[1];
 
 /* Use default TLE repository dir. ? */
   if ( p.use_deftledir )
 	tle_path = DEF_TLEDIR;
+  if ( dir_arg )  /* -T ignored */
+	tle_path = dir_arg;
 
   if ( !in_geopos ) {
 	Usage();
-- 
2.43.0


From 59e86dbfcd888641fc20a70c2951f536db0d73a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:33 +0000
Subject: [PATCH 20/61] fix: altitude filter depended on the order of -a and
 -s/-i, and was ignored by sat_visibility

---
 src/sat_skymap.c     | 3 +--
 src/sat_visibility.c | 2 --
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index c25fba6..c429960 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -484,7 +484,6 @@ int main(int argc, char **argv)
 		p.intl_desig = argv[i] + par_pos;
 		len_intl_desig = strlen(p.intl_desig);
 		p.single_sat_i = true;
-		p.altrng_requested = false;  // No altitude filter
 		in_region = false;
 		break;
           case 'j':
@@ -528,7 +527,6 @@ int main(int argc, char **argv)
           case 's':
 		p.norad_n = strtol(argv[i] + par_pos, &endptr, 10);
 		p.single_sat_n = true;
-		p.altrng_requested = false;  // No altitude filter
 		in_region = false;
 		break;
           case 'S':
@@ -634,6 +632,7 @@ int main(int argc, char **argv)
 
   if ( p.single_sat_n || p.single_sat_i ) {
 	single_sat = true;
+	p.altrng_requested = false;  // No altitude filter
 	p.geoloc_requested = true;
   }
 
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 6b75731..ea3f965 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -646,7 +646,6 @@ int main(int argc, char **argv)
 		p.intl_desig = argv[i] + par_pos;
 		len_intl_desig = strlen(p.intl_desig);
 		p.single_sat_i = true;
-		p.altrng_requested = false;  // No altitude filter
 		break;
           case 'j':
 		if ( strchr(argv[i] + par_pos, '-') != NULL ) {  // A minimal check
@@ -674,7 +673,6 @@ int main(int argc, char **argv)
           case 's':
 		p.norad_n = strtol(argv[i] + par_pos, &endptr, 10);
 		p.single_sat_n = true;
-		p.altrng_requested = false;  // No altitude filter
 		break;
           case 't':
 		p.delta_time = atof(argv[i] + par_pos);
-- 
2.43.0


From b18922e0457e5b204d0f08274b6a8afed3f0920e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:06 +0000
Subject: [PATCH 21/61] fix: selecting one satellite could return another one
 (prefix of the designator, numbers above 99999, filtered match)

---
 src/sat_skymap.c         | 33 ++++++++++++++++-----------------
 src/sat_skymap_def.h     |  7 ++++---
 src/sat_visibility.c     | 28 +++++++++++++---------------
 src/sat_visibility_def.h |  7 ++++---
 4 files changed, 37 insertions(+), 38 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index c429960..64ca710 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -483,6 +483,8 @@ int main(int argc, char **argv)
           case 'i':
 		p.intl_desig = argv[i] + par_pos;
 		len_intl_desig = strlen(p.intl_desig);
+		while ( len_intl_desig > 0 && p.intl_desig[len_intl_desig - 1] == ' ' )
+		  len_intl_desig--;
 		p.single_sat_i = true;
 		in_region = false;
 		break;
@@ -526,6 +528,7 @@ int main(int argc, char **argv)
 		break;
           case 's':
 		p.norad_n = strtol(argv[i] + par_pos, &endptr, 10);
+		p.norad_code = endptr[strspn(endptr, " ")] ? argv[i] + par_pos : NULL;  /* e.g. A0001 */
 		p.single_sat_n = true;
 		in_region = false;
 		break;
@@ -762,25 +765,27 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 //printf("NORAD:->%s\n", norad_name);
 
 	 char intl_desig[12] = {"none"};
-	 if ( p.single_sat_n ) {
-		int norad_name_n = strtol(norad_name, &endptr, 10);
-		if ( norad_name_n == p.norad_n )
-			single_sat_found = true;
-	 } else if ( p.single_sat_i ) {
-		if ( tle.intl_desig[0] != ' ' )
-		  snprintf( intl_desig, 10, "%s%.2s-%s",
+	 bool is_requested = false;  /* the requested single satellite? */
+	 if ( tle.intl_desig[0] != ' ' )
+		  snprintf( intl_desig, sizeof(intl_desig), "%s%.2s-%s",
 			(atoi( tle.intl_desig) > 57000 ? "19" : "20"),
 			tle.intl_desig, tle.intl_desig + 2);
+	 trimend(intl_desig);
 
-		if ( !strncmp(intl_desig, p.intl_desig, len_intl_desig) )
-		  single_sat_found = true;
+	 if ( p.single_sat_n ) {
+		if ( p.norad_code ? !strcmp(norad_name, p.norad_code) : tle.norad_number == p.norad_n )
+			is_requested = true;
+	 } else if ( p.single_sat_i ) {
+		if ( len_intl_desig && !strncmp(intl_desig, p.intl_desig, len_intl_desig) &&
+		     !intl_desig[len_intl_desig] )
+		  is_requested = true;
 	} else if ( p.satname_filter ) {
 		if ( strncmp(sat_name, p.satname, len_satname) )
 		continue;
 	}
  
 /* Single satellite requested? */
-	if ( single_sat && !single_sat_found )
+	if ( single_sat && !is_requested )
 		continue;
 /* Add a , to make it unique, and skip any previously met satellite */
 	strcat(norad_name, ",");
@@ -900,13 +905,6 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	  if ( p.sunlit_only && ! is_sunlit )
 		continue;
 
-	  if ( !p.single_sat_i ) {
-		if ( tle.intl_desig[0] != ' ' )
-		  snprintf( intl_desig, 10, "%s%.2s-%s",
-			(atoi( tle.intl_desig) > 57000 ? "19" : "20"),
-			tle.intl_desig, tle.intl_desig + 2);
-	  }
-
 	  d_ra = (ra1 - ra + TWOPI);
 	  if ( d_ra > PI )
 		d_ra -= TWOPI;
@@ -950,6 +948,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	  if ( is_sunlit )
 		n_sunlit_sats++;
 
+	  single_sat_found = single_sat;
 	  if ( single_sat_found || n_sats_found == p.max_sats ) {
 		fclose(ifile);
 		goto end_checking;
diff --git a/src/sat_skymap_def.h b/src/sat_skymap_def.h
index f62ea7e..24fe950 100644
--- a/src/sat_skymap_def.h
+++ b/src/sat_skymap_def.h
@@ -25,7 +25,8 @@ const char *progname = "sat_skymap",
 	  char *tle_file_name,
 		*date,
 		*intl_desig,
-		*satname;
+		*satname,
+		*norad_code;
 	 double lat,
 		lon,
 		ht_in_meters,
@@ -41,8 +42,8 @@ const char *progname = "sat_skymap",
 		alt_min,
 		alt_max;
 	    int delta_time,
-		max_sats,
-		norad_n;
+		max_sats;
+	   long norad_n;
 	   bool haversine,
 		info_only,
 		sunlit_only,
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index ea3f965..26ca79c 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -645,6 +645,8 @@ int main(int argc, char **argv)
           case 'i':
 		p.intl_desig = argv[i] + par_pos;
 		len_intl_desig = strlen(p.intl_desig);
+		while ( len_intl_desig > 0 && p.intl_desig[len_intl_desig - 1] == ' ' )
+		  len_intl_desig--;
 		p.single_sat_i = true;
 		break;
           case 'j':
@@ -672,6 +674,7 @@ int main(int argc, char **argv)
 		break;
           case 's':
 		p.norad_n = strtol(argv[i] + par_pos, &endptr, 10);
+		p.norad_code = endptr[strspn(endptr, " ")] ? argv[i] + par_pos : NULL;  /* e.g. A0001 */
 		p.single_sat_n = true;
 		break;
           case 't':
@@ -808,17 +811,19 @@ int main(int argc, char **argv)
 	strncpy(norad_name, line1+2, 5);  /* this is tle.norad_number */
 	norad_name[5] = '\0';
 
-	if ( p.single_sat_n ) {
-		int norad_name_n = strtol(norad_name, &endptr, 10);
-		if ( norad_name_n == p.norad_n )
-			single_sat_found = true;
-	} else if ( p.single_sat_i ) {
-		if ( tle.intl_desig[0] != ' ' )
-		  snprintf( intl_desig, 10, "%s%.2s-%s",
+	strcpy(intl_desig, "none");
+	if ( tle.intl_desig[0] != ' ' )
+		  snprintf( intl_desig, sizeof(intl_desig), "%s%.2s-%s",
 			(atoi( tle.intl_desig) > 57000 ? "19" : "20"),
 			tle.intl_desig, tle.intl_desig + 2);
+	trimend(intl_desig);
 
-		if ( !strncmp(intl_desig, p.intl_desig, len_intl_desig) )
+	if ( p.single_sat_n ) {
+		if ( p.norad_code ? !strcmp(norad_name, p.norad_code) : tle.norad_number == p.norad_n )
+			single_sat_found = true;
+	} else if ( p.single_sat_i ) {
+		if ( len_intl_desig && !strncmp(intl_desig, p.intl_desig, len_intl_desig) &&
+		     !intl_desig[len_intl_desig] )
 		  single_sat_found = true;
 	}
  
@@ -983,13 +988,6 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	sunlit_start_found = true;
 	mjd_sunlit_start = t - JD_OFF;
 
-	if ( !p.single_sat_i ) {
-		if ( tle.intl_desig[0] != ' ' )
-		  snprintf( intl_desig, 10, "%s%.2s-%s",
-			(atoi(tle.intl_desig) > 57000 ? "19" : "20"),
-			tle.intl_desig, tle.intl_desig + 2);
-	}
-
 	t_since += p.delta_time * 1440. / SEC_IN_DAY;
 
 	get_sat_PA_and_speed(t_since);
diff --git a/src/sat_visibility_def.h b/src/sat_visibility_def.h
index 55a9832..dfea12d 100644
--- a/src/sat_visibility_def.h
+++ b/src/sat_visibility_def.h
@@ -24,7 +24,8 @@ const char *progname = "sat_visibility",
   typedef struct myParams {
 	  char *tle_file_name,
 		date[2][32],
-		*intl_desig;
+		*intl_desig,
+		*norad_code;
 	 double lat,
 		lon,
 		ht_in_meters,
@@ -39,8 +40,8 @@ const char *progname = "sat_visibility",
 		mjd[2],
 		alt_min,
 		alt_max;
-	    int delta_time,
-		norad_n;
+	    int delta_time;
+	   long norad_n;
 	   bool skip_daytime,
 		single_sat_i,
 		single_sat_n,
-- 
2.43.0


From bfc2fd00419724142f66afa7c5d40fa7d0db89bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:45 +0000
Subject: [PATCH 22/61] fix: duplicate check overflowed its buffer beyond 11667
 satellites and missed differently written numbers

---
 src/sat_skymap.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 64ca710..f6acf2f 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -589,7 +589,7 @@ int main(int argc, char **argv)
 	p.lon * DEG2RAD, rho_cos_phi, rho_sin_phi, observer_loc2);
  
   const short fname_len = 64;
-  char *s, row[fname_len], norad_name[7], tle_list_file[8192];
+  char *s, row[fname_len], norad_name[7], norad_key[16], tle_list_file[8192];
   FILE *lisfile, *ifile;
 
   open_json();
@@ -788,12 +788,12 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	if ( single_sat && !is_requested )
 		continue;
 /* Add a , to make it unique, and skip any previously met satellite */
-	strcat(norad_name, ",");
-	if ( (s = strstr(sbuff, norad_name)) != NULL ) {
+	sprintf(norad_key, "%08d,", tle.norad_number);
+	if ( (s = strstr(sbuff, norad_key)) != NULL ) {
 //printf("Found string '%s' at index = %ld ... skipping.\n", norad_name, s - sbuff);
 		continue;
 	} else {
-		if ( use_bufflen >= cur_bufflen ) {
+		if ( use_bufflen + 10 > cur_bufflen ) {
 		  cur_bufflen += extra_satbuff;
 //printf("\nRealloc extra bytes. Now %d \n", cur_bufflen);
 		  if ( (sbuff = (char *)realloc(sbuff, cur_bufflen)) == NULL ) {
@@ -802,8 +802,8 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 		    exit(1);
 		  }
 		}
-		strcat(sbuff, norad_name);
-		use_bufflen += 6;
+		strcat(sbuff, norad_key);
+		use_bufflen += 9;
 	}
 
 	int is_deep = select_ephemeris(&tle),
-- 
2.43.0


From 755ea03732704f27abf65fa9476aaf6a594be1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:47 +0000
Subject: [PATCH 23/61] fix: satellite names of 23 or more characters were not
 terminated, entries without a name line got the name of another one

---
 src/sat_skymap.c     | 25 +++++++++++++++++++------
 src/sat_visibility.c | 25 +++++++++++++++++++------
 2 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index f6acf2f..39e9a92 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -147,13 +147,23 @@ char *trimend(char *str)
   char *end;
 
   end = str + strlen(str) - 1;
-  while(end > str && isspace((unsigned char)*end)) end--;
+  while(end >= str && isspace((unsigned char)*end)) end--;
   end[1] = '\0';
 
   return str;
 }
 
 
+/*
+  Is this a TLE data line (and not a satellite name, even if beginning with 1 or 2)?
+*/
+bool is_tle_line(const char *line)
+{
+  return (line[0] == '1' || line[0] == '2') && line[1] == ' ';
+}
+
+
+
 void Usage() {
   printf("Usage:\n  %s tle_file [OPTIONS]\n\n"
   "OPTIONS are:\n"
@@ -750,7 +760,9 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	exit(-2);
     }
 
-    strncpy(sat_name, line1, 23);
+    sat_name[0] = sat_name[24] = '\0';
+    if ( !is_tle_line(line1) )
+	strncpy(sat_name, line1, 24);
     trimend(sat_name);
 
     while ( fgets(line2, sizeof(line2), ifile) ) {
@@ -956,11 +968,12 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	} // end if ang_sep < p.search_radius
       }  // end TLE found
 
-      strcpy(line1, line2);
-      if ( line2[0] != '1' && line2[0] != '2' ) {
-	  strncpy(sat_name, line2, 23);
+      if ( !is_tle_line(line2) ) {
+	  strncpy(sat_name, line2, 24);
 	  trimend(sat_name);
-      }
+      } else if ( is_tle_line(line1) )  /* the name precedes immediately the first line */
+	  sat_name[0] = '\0';
+      strcpy(line1, line2);
     }  // end while fgets(line2 ...
 
     fclose(ifile);
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 26ca79c..1807c0e 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -298,13 +298,23 @@ char *trimend(char *str)
   char *end;
 
   end = str + strlen(str) - 1;
-  while(end > str && isspace((unsigned char)*end)) end--;
+  while(end >= str && isspace((unsigned char)*end)) end--;
   end[1] = '\0';
 
   return str;
 }
 
 
+/*
+  Is this a TLE data line (and not a satellite name, even if beginning with 1 or 2)?
+*/
+bool is_tle_line(const char *line)
+{
+  return (line[0] == '1' || line[0] == '2') && line[1] == ' ';
+}
+
+
+
 void Usage() {
   printf("Usage:\n  %s tle_file [OPTIONS]\n\n"
   "OPTIONS are:\n"
@@ -801,7 +811,9 @@ int main(int argc, char **argv)
 	exit(-2);
     }
 
-    strncpy(sat_name, line1, 23);
+    sat_name[0] = sat_name[24] = '\0';
+    if ( !is_tle_line(line1) )
+	strncpy(sat_name, line1, 24);
     trimend(sat_name);
 
     while ( fgets(line2, sizeof(line2), ifile) ) {
@@ -833,11 +845,12 @@ int main(int argc, char **argv)
 
       }  // end TLE found
 
-      strcpy(line1, line2);
-      if ( line2[0] != '1' && line2[0] != '2' ) {
-	strncpy(sat_name, line2, 23);
+      if ( !is_tle_line(line2) ) {
+	strncpy(sat_name, line2, 24);
 	trimend(sat_name);
-      }
+      } else if ( is_tle_line(line1) )  /* the name precedes immediately the first line */
+	sat_name[0] = '\0';
+      strcpy(line1, line2);
     }  // end while fgets(line2 ...
 
     if ( single_sat_found )
-- 
2.43.0


From 637def52eef8254d82d7c2f43d89aab34285a21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:49 +0000
Subject: [PATCH 24/61] fix: long, CRLF-terminated and NUL-starting rows of a
 list file were misread

---
 src/sat_skymap.c     | 8 ++++----
 src/sat_visibility.c | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 39e9a92..e77cd80 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -598,7 +598,7 @@ int main(int argc, char **argv)
   observer_cartesian_coords(jd + p.delta_time / SEC_IN_DAY,
 	p.lon * DEG2RAD, rho_cos_phi, rho_sin_phi, observer_loc2);
  
-  const short fname_len = 64;
+  const short fname_len = 4096;
   char *s, row[fname_len], norad_name[7], norad_key[16], tle_list_file[8192];
   FILE *lisfile, *ifile;
 
@@ -738,9 +738,9 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	  break;
 	if ( row[0] == '#' )  /* Skip lines with comments */
 	  continue;
-	lastchar = tle_file_name + strlen(tle_file_name) - 1;  /* Drop linefeeds, CR, ... */
-	if (*lastchar < 32)
-	  *lastchar = (char) 0;
+	lastchar = tle_file_name + strlen(tle_file_name);  /* Drop linefeeds, CR, ... */
+	while ( lastchar > tle_file_name && (unsigned char)lastchar[-1] < 32 )
+	  *--lastchar = (char) 0;
 	if ( strlen(row) == 0 )  /* Skip empty lines */
 	  continue;
 	snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, tle_file_name);
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 1807c0e..03fa4d0 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -738,7 +738,7 @@ int main(int argc, char **argv)
   earth_lat_alt_to_parallax(p.lat * DEG2RAD, p.ht_in_meters, &rho_cos_phi, &rho_sin_phi);
   observer_cartesian_coords(jd[0], p.lon * DEG2RAD, rho_cos_phi, rho_sin_phi, geo.observer_loc);
  
-  const short fname_len = 64;
+  const short fname_len = 4096;
   char row[fname_len], norad_name[7], tle_list_file[8192];
   FILE *lisfile, *ifile = NULL;
 
@@ -791,9 +791,9 @@ int main(int argc, char **argv)
 	  break;
 	if ( row[0] == '#' )  /* Skip lines with comments */
 	  continue;
-	lastchar = tle_file_name + strlen(tle_file_name) - 1;  /* Drop linefeeds, CR, ... */
-	if (*lastchar < 32)
-	  *lastchar = (char) 0;
+	lastchar = tle_file_name + strlen(tle_file_name);  /* Drop linefeeds, CR, ... */
+	while ( lastchar > tle_file_name && (unsigned char)lastchar[-1] < 32 )
+	  *--lastchar = (char) 0;
 	if ( strlen(row) == 0 )  /* Skip empty lines */
 	  continue;
 	snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, tle_file_name);
-- 
2.43.0


From 27f69fa003f152cdf10532fd78c8b1512c6b6c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:17 +0000
Subject: [PATCH 25/61] fix: an error after the first listed satellite left the
 JSON document unclosed

---
 src/sat_skymap.c     | 9 ++++++---
 src/sat_visibility.c | 7 +++++++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index e77cd80..043b4e6 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -258,7 +258,12 @@ void add_satlatlon_json(Geoloc geo) {
     printf( "\"geoloc\": {\"lat\":%7.3lf, \"lon\":%7.3lf, \"alt\":%9.2lf, \"theta\":%8.3lf}, ", geo.lat, geo.lon, geo.alt, geo.theta);
 }
 
+/* The "satellite(s)" JSON element is still to be closed */
+static bool sat_json_open = false;
+
 void close_stat_json(int argc, char **argv, bool input_list, int status, char *errmsg, int n_sats_found, int n_sats, int n_sunlit_sats) {
+  if ( sat_json_open )
+	printf("],");
   printf(" \"run_command\": \"%s", progname);
   for ( int i = 1; i < argc; i++ ) {
 	putchar(' ');
@@ -938,6 +943,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 		else {
 		  add_fieldsdesc_json();
 		  printf(" \"satellites\": [");
+		  sat_json_open = true;
 		}
 
 		printf("{\"name\": \"");
@@ -988,9 +994,6 @@ end_checking:
 
   free(sbuff);
 
-  if ( !p.info_only && n_sats_found > 0 )
-	printf("],");
-
 /* For single satellite request report failure but do not rise an error flag */
   if ( single_sat && !single_sat_found )
 	sprintf(errmsg, "Requested satellite not found in TLE file");
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 03fa4d0..4a1fbd8 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -415,7 +415,12 @@ void add_sundata_json(char *label) {
     sun.ra, sun.dec, sun.az, sun.alt, sun.lon, sun.parang, sun.ang_sep);
 }
 
+/* The "satellite(s)" JSON element is still to be closed */
+static bool sat_json_open = false;
+
 void close_stat_json(int argc, char **argv, bool input_list, int status, char *errmsg, int n_sats_found) {
+  if ( sat_json_open )
+	printf("\"sat_end\": null}, ");
   printf("\"run_command\": \"%s", progname);
   for ( int i = 1; i < argc; i++ ) {
 	putchar(' ');
@@ -1007,6 +1012,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 
 	add_fieldsdesc_json();
 	printf(" \"satellite\": ");
+	sat_json_open = true;
 	printf("{\"name\": \"");
 	put_json(sat_name);
 	printf("\", \"intl_desig\": \"");
@@ -1121,6 +1127,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 
 
   if ( n_sats_found > 0 ) {
+	sat_json_open = false;
 	printf("},"
 	" \"sunlit_duration_minutes\": %.2f, ", (float)(mjd_sunlit_end - mjd_sunlit_start)*1440.);
   } else {
-- 
2.43.0


From 6e2d4f2822efc54148287423251271c09e8215f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:19 +0000
Subject: [PATCH 26/61] fix: RA differences across 0h were not reduced, -E
 without -H mixed degrees and radians

---
 src/sat_skymap.c     | 18 +++++-------------
 src/sat_visibility.c |  4 +---
 2 files changed, 6 insertions(+), 16 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 043b4e6..9483f62 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -881,21 +881,15 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 /* Approx or precise separation? */
 	if ( !p.haversine ) {
 	  if ( p.geoloc_reference ) {
-		d_ra = geo.lon * DEG2RAD - target_lon + TWOPI;
-		if ( d_ra > PI )
-		  d_ra -= TWOPI;
-		d_dec = geo.lat - target_lat;
+		d_ra = remainder(geo.lon * DEG2RAD - target_lon, TWOPI);
+		d_dec = geo.lat * DEG2RAD - target_lat;
 		ang_sep = sqrt(d_ra * d_ra + d_dec * d_dec) * RAD2DEG;
 		ang_sep1 = 2 * ang_sep;  // dummy
 	  } else {
-		d_ra = (ra - target_ra + TWOPI);
-		if ( d_ra > PI )
-		  d_ra -= TWOPI;
+		d_ra = remainder(ra - target_ra, TWOPI);
 		d_dec = dec - target_dec;
 		ang_sep = sqrt(d_ra * d_ra + d_dec * d_dec) * RAD2DEG;
-		d_ra = (ra1 - target_ra + TWOPI);
-		if ( d_ra > PI )
-		  d_ra -= TWOPI;
+		d_ra = remainder(ra1 - target_ra, TWOPI);
 		d_dec = dec1 - target_dec;
 		ang_sep1 = sqrt(d_ra * d_ra + d_dec * d_dec) * RAD2DEG;
 	  }
@@ -922,9 +916,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	  if ( p.sunlit_only && ! is_sunlit )
 		continue;
 
-	  d_ra = (ra1 - ra + TWOPI);
-	  if ( d_ra > PI )
-		d_ra -= TWOPI;
+	  d_ra = remainder(ra1 - ra, TWOPI);
 	  d_ra *= cos(dec);
 	  d_dec = dec1 - dec;
 	  posn_ang_of_motion = atan2(d_ra, d_dec);
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 4a1fbd8..16746d9 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -557,9 +557,7 @@ void get_sat_PA_and_speed(double t_since) {
 	get_satellite_ra_dec_delta(geo.observer_loc, pos, &ra1, &dec1, &dist_to_satellite);  /* Returned RA, Dec in radians */
 	//-- epoch_of_date_to_j2000(t, &ra1, &dec1);  /* Do not apply precession */
 
-	d_ra = (ra1 - sat.ra + TWOPI);
-	if ( d_ra > PI )
-		d_ra -= TWOPI;
+	d_ra = remainder(ra1 - sat.ra, TWOPI);
 	d_ra *= cos(sat.dec);
 	d_dec = dec1 - sat.dec;
 	sat.parang = atan2(d_ra, d_dec);
-- 
2.43.0


From b93859c83b9e656e9a60a35366965a9438f266b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:12 +0000
Subject: [PATCH 27/61] fix: satellites whose position cannot be computed were
 reported at the centre of the Earth

---
 src/sat_skymap.c     | 30 ++++++++++++++++++++++++------
 src/sat_visibility.c | 19 +++++++++++++++++--
 2 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 9483f62..2c1ef4d 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -164,6 +164,15 @@ bool is_tle_line(const char *line)
 
 
 
+/*
+  Did SGP4 / SDP4 fail to compute a position? (i.e. not simply warn about a low perigee)
+*/
+bool is_propagation_error(int rval)
+{
+  return rval < 0 && rval != SXPX_WARN_ORBIT_WITHIN_EARTH && rval != SXPX_WARN_PERIGEE_WITHIN_EARTH;
+}
+
+
 void Usage() {
   printf("Usage:\n  %s tle_file [OPTIONS]\n\n"
   "OPTIONS are:\n"
@@ -824,7 +833,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	}
 
 	int is_deep = select_ephemeris(&tle),
-	    is_sunlit;
+	    is_sunlit, sat_err;
 //printf("is_deep: %d\n", is_deep);
 	double sat_params[N_SAT_PARAMS], ang_sep, ang_sep1, d_ra, d_dec,
 		ra, dec, ra1, dec1, sep_to_satellite, t_since,
@@ -835,15 +844,17 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 
 	if ( is_deep ) {
 		SDP4_init(sat_params, &tle);
-		SDP4(t_since, &tle, sat_params, pos, NULL);
+		sat_err = SDP4(t_since, &tle, sat_params, pos, NULL);
 	} else {
 		SGP4_init(sat_params, &tle);
-		SGP4(t_since, &tle, sat_params, pos, NULL);
+		sat_err = SGP4(t_since, &tle, sat_params, pos, NULL);
 	}
+	if ( is_propagation_error(sat_err) && !single_sat )  /* e.g. decayed satellite */
+		continue;
 	get_satellite_ra_dec_delta(observer_loc, pos, &ra, &dec, &sep_to_satellite);
 
 /* For malformed or partial tle (e.g. Bepi-Colombo) this could happen */
-	if ( isnan(ra) || isnan(dec) ) {
+	if ( isnan(ra) || isnan(dec) || is_propagation_error(sat_err) ) {
 		sprintf(errmsg, "Could not decode TLE data");
 		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(1);
@@ -872,11 +883,18 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	t_since += p.delta_time * 1440. / SEC_IN_DAY;
 
 	if ( is_deep )
-		SDP4(t_since, &tle, sat_params, pos, NULL);
+		sat_err = SDP4(t_since, &tle, sat_params, pos, NULL);
 	else
-		SGP4(t_since, &tle, sat_params, pos, NULL);
+		sat_err = SGP4(t_since, &tle, sat_params, pos, NULL);
+	if ( is_propagation_error(sat_err) && !single_sat )
+		continue;
 
 	get_satellite_ra_dec_delta(observer_loc2, pos, &ra1, &dec1, &unused_delta2);
+	if ( isnan(ra1) || isnan(dec1) || is_propagation_error(sat_err) ) {
+		sprintf(errmsg, "Could not decode TLE data");
+		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		exit(1);
+	}
 	epoch_of_date_to_j2000(jd, &ra1, &dec1);
 /* Approx or precise separation? */
 	if ( !p.haversine ) {
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 16746d9..46d853e 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -315,6 +315,15 @@ bool is_tle_line(const char *line)
 
 
 
+/*
+  Did SGP4 / SDP4 fail to compute a position? (i.e. not simply warn about a low perigee)
+*/
+bool is_propagation_error(int rval)
+{
+  return rval < 0 && rval != SXPX_WARN_ORBIT_WITHIN_EARTH && rval != SXPX_WARN_PERIGEE_WITHIN_EARTH;
+}
+
+
 void Usage() {
   printf("Usage:\n  %s tle_file [OPTIONS]\n\n"
   "OPTIONS are:\n"
@@ -919,12 +928,18 @@ int main(int argc, char **argv)
 
     t_since = (t - tle.epoch) * 1440.;  /* From days to minutes */
 
+    int sat_err;
     if ( sat.is_deep ) {
 	SDP4_init(sat_params, &tle);
-	SDP4(t_since, &tle, sat_params, pos, NULL);
+	sat_err = SDP4(t_since, &tle, sat_params, pos, NULL);
     } else {
 	SGP4_init(sat_params, &tle);
-	SGP4(t_since, &tle, sat_params, pos, NULL);
+	sat_err = SGP4(t_since, &tle, sat_params, pos, NULL);
+    }
+    if ( is_propagation_error(sat_err) || isnan(pos[0] + pos[1] + pos[2]) ) {
+	sprintf(errmsg, "Could not decode TLE data");
+	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
+	exit(1);
     }
 
     if ( p.altrng_requested ) {
-- 
2.43.0


From c1248d0dda1234235a5300a64a55cc0bab9f7aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:14 +0000
Subject: [PATCH 28/61] fix: SDP4 gave a position for deep-space satellites
 already decayed

---
 src/sdp4.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/sdp4.c b/src/sdp4.c
index 505b4bf..ce983e4 100644
--- a/src/sdp4.c
+++ b/src/sdp4.c
@@ -305,8 +305,20 @@ int DLL_FUNC SDP4( const double tsince, const tle_t *tle, const double *params,
 
   tempa = 1-c1*tsince;
   if( deep_arg->xn < 0.)
+     {
+     int i;
+
+     for( i = 0; i < 3; i++)
+        {
+        pos[i] = 0.;
+        if( vel)
+           vel[i] = 0.;
+        }
      return( SXPX_ERR_NEGATIVE_XN);
+     }
   a = pow(xke/deep_arg->xn,two_thirds)*tempa*tempa;
+  if( tempa < 0.)       /* force negative a,  to indicate error condition */
+     a = -a;
   deep_arg->em -= tle->bstar*c4*tsince;
 
   /* Update for deep-space periodic effects */
-- 
2.43.0


From f416cc0409a7098503abb3bb0dc52e299c7ce516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:42 +0000
Subject: [PATCH 29/61] fix: NaN, infinite and overflowing numeric option
 values were accepted (invalid JSON, division by zero, endless scan)

---
 src/sat_skymap.c     | 32 ++++++++++++++++++++++++++------
 src/sat_visibility.c | 26 +++++++++++++++++++++++---
 2 files changed, 49 insertions(+), 9 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 2c1ef4d..4682780 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -389,7 +389,7 @@ int main(int argc, char **argv)
 {
   char errmsg[128] = {""}, *tle_path = ".", line1[100], line2[100],
 	sat_name[25], tle_path_file[8192], opt, *endptr;
-  double jd, rho_sin_phi, rho_cos_phi, observer_loc[3], observer_loc2[3],
+  double delta_time, jd, rho_sin_phi, rho_cos_phi, observer_loc[3], observer_loc2[3],
 	 target_ra, target_dec, target_lon = 0, target_lat = 0;
   int i, par_pos, status = 0, n_sats_found = 0, n_sats = 0, n_sunlit_sats = 0,
 	 len_intl_desig = 0, len_satname = 0;
@@ -520,12 +520,19 @@ int main(int argc, char **argv)
 		/* Longitude locally in the range [0, 360[ (not [-180, +180]) degrees */
 		if ( p.lon < 0. )
 		  p.lon += 360;
-		if ( p.lat < -90. || p.lat > 90. )  {
+		p.lon = fmod(p.lon, 360.);
+		if ( !(p.lat >= -90. && p.lat <= 90.) )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
   		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
+		if ( !isfinite(p.lon) || !(fabs(p.ht_in_meters) <= 1e9) )  {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Longitude or altitude out of range. Read '%s'", argv[i] + par_pos);
+  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		  exit(-1);
+		}
 		in_geopos = true;
 		break;
           case 'n':
@@ -533,13 +540,13 @@ int main(int argc, char **argv)
 		break;
           case 'p':
 		sscanf(argv[i] + par_pos, "%lf,%lf", &p.ra_deg, &p.de_deg);
-		if ( p.ra_deg < 0. || p.ra_deg > 360. )  {
+		if ( !(p.ra_deg >= 0. && p.ra_deg <= 360.) )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "RA must be in the range [0, 360[ degrees. Read '%lf'", p.ra_deg);
   		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
-		if ( p.de_deg < -90. || p.de_deg > 90. )  {
+		if ( !(p.de_deg >= -90. && p.de_deg <= 90.) )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "Dec must be in the range [-90, +90] degrees. Read '%lf'", p.de_deg);
   		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
@@ -549,6 +556,12 @@ int main(int argc, char **argv)
 		break;
           case 'r':
 		p.search_radius = atof(argv[i] + par_pos);
+		if ( !isfinite(p.search_radius) )  {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Radius out of range. Read '%s'", argv[i] + par_pos);
+  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		  exit(-1);
+		}
 		break;
           case 's':
 		p.norad_n = strtol(argv[i] + par_pos, &endptr, 10);
@@ -562,7 +575,14 @@ int main(int argc, char **argv)
 		p.satname_filter = true;
 		break;
           case 't':
-		p.delta_time = atof(argv[i] + par_pos);
+		delta_time = atof(argv[i] + par_pos);
+		if ( !(fabs(delta_time) <= 1e9) ) {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Delta time must be in the range [-1e9, 1e9] seconds. Read '%s'", argv[i] + par_pos);
+  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		  exit(-1);
+		}
+		p.delta_time = delta_time;
 		break;
           default:
 		open_json();
@@ -941,7 +961,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	  if ( posn_ang_of_motion < 0. )
 		posn_ang_of_motion += TWOPI;
 //speed = sqrt(d_ra * d_ra + d_dec * d_dec) * RAD2DEG * 60 / p.delta_time;  // arcmin / s
-	  speed = skysep_h(ra, dec, ra1, dec1) * 60 / p.delta_time;
+	  speed = p.delta_time ? skysep_h(ra, dec, ra1, dec1) * 60 / abs(p.delta_time) : 0.;
 
 /* HEALPix order 8 nested ID */
 	  theta = (PI/2. - dec);
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 46d853e..db45cc1 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -583,7 +583,7 @@ int main(int argc, char **argv)
 {
   char errmsg[128] = {""}, *tle_path = ".", line1[100], line2[100],
 	sat_name[25], tle_path_file[8192], opt, *endptr;
-  double jd[2], rho_sin_phi, rho_cos_phi,
+  double delta_time, jd[2], rho_sin_phi, rho_cos_phi,
 	 target_ra_rad, target_dec_rad;
   int i, par_pos, status = 0, n_sats_found = 0,
 	 len_intl_desig = 0;
@@ -683,16 +683,29 @@ int main(int argc, char **argv)
 		/* Longitude locally in the range [0, 360[ (not [-180, +180]) degrees */
 		if ( p.lon < 0. )
 		  p.lon += 360;
-		if ( p.lat < -90. || p.lat > 90. )  {
+		p.lon = fmod(p.lon, 360.);
+		if ( !(p.lat >= -90. && p.lat <= 90.) )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
   		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
 		  exit(-1);
 		}
+		if ( !isfinite(p.lon) || !(fabs(p.ht_in_meters) <= 1e9) )  {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Longitude or altitude out of range. Read '%s'", argv[i] + par_pos);
+  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
+		  exit(-1);
+		}
 		in_geopos = true;
 		break;
           case 'r':
 		p.search_radius = atof(argv[i] + par_pos);
+		if ( !isfinite(p.search_radius) )  {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Radius out of range. Read '%s'", argv[i] + par_pos);
+  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
+		  exit(-1);
+		}
 		break;
           case 's':
 		p.norad_n = strtol(argv[i] + par_pos, &endptr, 10);
@@ -700,7 +713,14 @@ int main(int argc, char **argv)
 		p.single_sat_n = true;
 		break;
           case 't':
-		p.delta_time = atof(argv[i] + par_pos);
+		delta_time = atof(argv[i] + par_pos);
+		if ( !(delta_time >= 1. && delta_time <= 1e9) ) {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Delta time must be in the range [1, 1e9] seconds. Read '%s'", argv[i] + par_pos);
+  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
+		  exit(-1);
+		}
+		p.delta_time = delta_time;
 		break;
           default:
 		open_json();
-- 
2.43.0


From d9e4b2af0410275d8a9a533fbf7a5b7f1fd804b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:44 +0000
Subject: [PATCH 30/61] fix: -n 0 returned every satellite

---
 src/sat_skymap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 4682780..74fa0db 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -756,7 +756,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
   Geoloc geo;
 
 /* Loop on list of tle files or simple open of single input file */
-  while ( read_tle_list ) {
+  while ( read_tle_list && n_sats_found < p.max_sats ) {
 
     char *lastchar;
     if ( !input_list ) {
-- 
2.43.0


From a5becab12eb565e0c294f73c11b8e63b72cd93fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:05 +0000
Subject: [PATCH 31/61] fix: longitudes below -360 or above 360 degrees were
 not reduced

---
 src/sat_skymap.c     | 2 +-
 src/sat_visibility.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 74fa0db..836f58f 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -518,9 +518,9 @@ int main(int argc, char **argv)
           case 'l':
 		sscanf(argv[i] + par_pos, "%lf,%lf,%lf", &p.lat, &p.lon, &p.ht_in_meters);
 		/* Longitude locally in the range [0, 360[ (not [-180, +180]) degrees */
+		p.lon = fmod(p.lon, 360.);
 		if ( p.lon < 0. )
 		  p.lon += 360;
-		p.lon = fmod(p.lon, 360.);
 		if ( !(p.lat >= -90. && p.lat <= 90.) )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index db45cc1..8f612ce 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -681,9 +681,9 @@ int main(int argc, char **argv)
           case 'l':
 		sscanf(argv[i] + par_pos, "%lf,%lf,%lf", &p.lat, &p.lon, &p.ht_in_meters);
 		/* Longitude locally in the range [0, 360[ (not [-180, +180]) degrees */
+		p.lon = fmod(p.lon, 360.);
 		if ( p.lon < 0. )
 		  p.lon += 360;
-		p.lon = fmod(p.lon, 360.);
 		if ( !(p.lat >= -90. && p.lat <= 90.) )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
-- 
2.43.0


From 8458dc1bebe9f0539f725f4bca2cc8f8f00b25f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:07 +0000
Subject: [PATCH 32/61] fix: an unreadable TLE or list file was taken as
 complete

---
 src/sat_skymap.c     | 11 +++++++++++
 src/sat_visibility.c | 16 ++++++++++++++--
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 836f58f..5cf5451 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -1012,9 +1012,20 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
       strcpy(line1, line2);
     }  // end while fgets(line2 ...
 
+    if ( ferror(ifile) ) {
+	snprintf(errmsg, sizeof(errmsg), "Error reading input file %s", tle_path_file);
+	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+	exit(2);
+    }
     fclose(ifile);
   }  // end while read_tle_list
 
+  if ( input_list && ferror(lisfile) ) {
+	snprintf(errmsg, sizeof(errmsg), "Error reading input file %s", tle_list_file);
+	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+	exit(2);
+  }
+
 
 end_checking:
   if ( single_sat_found )
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 8f612ce..360ca59 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -582,7 +582,7 @@ void get_sat_PA_and_speed(double t_since) {
 int main(int argc, char **argv)
 {
   char errmsg[128] = {""}, *tle_path = ".", line1[100], line2[100],
-	sat_name[25], tle_path_file[8192], opt, *endptr;
+	sat_name[25], tle_path_file[8192] = {""}, opt, *endptr;
   double delta_time, jd[2], rho_sin_phi, rho_cos_phi,
 	 target_ra_rad, target_dec_rad;
   int i, par_pos, status = 0, n_sats_found = 0,
@@ -888,9 +888,21 @@ int main(int argc, char **argv)
     if ( single_sat_found )
 	break;
 
+    if ( ferror(ifile) ) {
+	snprintf(errmsg, sizeof(errmsg), "Error reading input file %s", tle_path_file);
+	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
+	exit(2);
+    }
   }  // end while read_tle_list
 
-  fclose(ifile);
+  if ( !single_sat_found && input_list && ferror(lisfile) ) {
+	snprintf(errmsg, sizeof(errmsg), "Error reading input file %s", tle_list_file);
+	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
+	exit(2);
+  }
+
+  if ( ifile )
+	fclose(ifile);
 
   if ( !single_sat_found ) {
 	snprintf(errmsg, sizeof(errmsg), "Satellite not found in %s", tle_path_file);
-- 
2.43.0


From 9356e93cc326b3e965ce0694c43edf9b5b9b68b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:38 +0000
Subject: [PATCH 33/61] fix: sat_visibility input parameters were printed
 before sidereal time and region RA were computed

---
 src/sat_visibility.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 360ca59..fc03324 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -925,6 +925,9 @@ int main(int argc, char **argv)
   p.de_deg = p.lat;
   target_dec_rad = p.lat * DEG2RAD;
 
+  p.lmst = lmst_hr(jd[0], p.lon, &p.gmst);
+  p.ra_deg = p.lmst * 15.;
+
   add_geofieldsdesc_json();
 /* Alt, Az, Parang from Dec, HA, Lat */
   dechalat2alt(target_dec_rad, hazenith, p.lat, &p.alt, &p.az, &p.parang);
-- 
2.43.0


From 18af2062d995f4dd730824c524d9a9f703f8ba21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:40 +0000
Subject: [PATCH 34/61] fix: position angle and speed of the mid, max and end
 events were those of the start, with the observer not moving

---
 src/sat_visibility.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index fc03324..62ea163 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -552,10 +552,11 @@ void get_sun_data(double t, double target_ra_rad, double target_dec_rad, bool ge
 }
 
 
-/* Compute posn_ang_of_motion and speed given initial coords and a time > t_initial */
+/* Compute posn_ang_of_motion and speed given the coords at JD t and those delta_time later */
 
-void get_sat_PA_and_speed(double t_since) {
-	double pos[3], ra1, dec1, d_ra, d_dec, dist_to_satellite;
+void get_sat_PA_and_speed(double t, double rho_cos_phi, double rho_sin_phi) {
+	double t1 = t + p.delta_time / SEC_IN_DAY, t_since = (t1 - tle.epoch) * 1440.,
+	  observer_loc[3], pos[3], ra1, dec1, d_ra, d_dec, dist_to_satellite;
 	if ( sat.is_deep ) {
 	  SDP4_init(sat_params, &tle);
 	  SDP4(t_since, &tle, sat_params, pos, NULL);
@@ -563,7 +564,8 @@ void get_sat_PA_and_speed(double t_since) {
 	  SGP4_init(sat_params, &tle);
 	  SGP4(t_since, &tle, sat_params, pos, NULL);
 	}
-	get_satellite_ra_dec_delta(geo.observer_loc, pos, &ra1, &dec1, &dist_to_satellite);  /* Returned RA, Dec in radians */
+	observer_cartesian_coords(t1, p.lon * DEG2RAD, rho_cos_phi, rho_sin_phi, observer_loc);
+	get_satellite_ra_dec_delta(observer_loc, pos, &ra1, &dec1, &dist_to_satellite);  /* Returned RA, Dec in radians */
 	//-- epoch_of_date_to_j2000(t, &ra1, &dec1);  /* Do not apply precession */
 
 	d_ra = remainder(ra1 - sat.ra, TWOPI);
@@ -997,7 +999,7 @@ int main(int argc, char **argv)
 /* Compute initial speed to be used to accelerate visibility search (TODO) */
     if ( is_t_start ) {
 	is_t_start = false;
-	get_sat_PA_and_speed(t_since);
+	get_sat_PA_and_speed(t, rho_cos_phi, rho_sin_phi);
     }
 
 /*
@@ -1039,6 +1041,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	  sat_geoLocation(pos);
 	  add_satlatlon_json("geoloc_end");
 	  add_sundata_json("sun_end");
+	  get_sat_PA_and_speed(t - p.delta_time / SEC_IN_DAY, rho_cos_phi, rho_sin_phi);
 	  sat.cur_mjd = t - JD_OFF - p.delta_time / SEC_IN_DAY;
 	  strcpy(sat.cur_date, mjd2date(sat.cur_mjd));
 	  sat.ha = p.lmst - sat.ra * RAD2HRS;
@@ -1054,9 +1057,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	sunlit_start_found = true;
 	mjd_sunlit_start = t - JD_OFF;
 
-	t_since += p.delta_time * 1440. / SEC_IN_DAY;
-
-	get_sat_PA_and_speed(t_since);
+	get_sat_PA_and_speed(t - p.delta_time / SEC_IN_DAY, rho_cos_phi, rho_sin_phi);
 
 	add_fieldsdesc_json();
 	printf(" \"satellite\": ");
@@ -1091,6 +1092,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	sat_geoLocation(pos);
 	add_satlatlon_json("geoloc_end");
 	add_sundata_json("sun_end");
+	get_sat_PA_and_speed(t, rho_cos_phi, rho_sin_phi);
 	sat.cur_mjd = mjd_sunlit_end;
 	strcpy(sat.cur_date, mjd2date(sat.cur_mjd));
 	sat.ha = p.lmst - sat.ra * RAD2HRS;
@@ -1129,6 +1131,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	get_sun_data(t, target_ra_rad, target_dec_rad, false);
 	add_satlatlon_json("geoloc_mid");
 	add_sundata_json("sun_mid");
+	get_sat_PA_and_speed(t, rho_cos_phi, rho_sin_phi);
 	strcpy(sat.cur_date, mjd2date(mjd_sunlit_mid));
 	sat.ha = p.lmst - sat.ra * RAD2HRS;
 	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
@@ -1165,6 +1168,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	get_sun_data(t, target_ra_rad, target_dec_rad, false);
 	add_satlatlon_json("geoloc_max");
 	add_sundata_json("sun_max");
+	get_sat_PA_and_speed(t, rho_cos_phi, rho_sin_phi);
 	strcpy(sat.cur_date, mjd2date(t - JD_OFF));
 	sat.ha = p.lmst - sat.ra * RAD2HRS;
 	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
-- 
2.43.0


From 3305f62a410c8882dd19be102a9111c131fd71b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:42 +0000
Subject: [PATCH 35/61] fix: MJD of the mid and max events was that of the end,
 start and end times of the window were one step late

---
 src/sat_visibility.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 62ea163..686fa8d 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -1037,7 +1037,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 /* First time the satellite no longer sunlit */
 	if ( !sunlit_end_found ) {
 	  sunlit_end_found = true;
-	  mjd_sunlit_end = t - JD_OFF;
+	  mjd_sunlit_end = t - JD_OFF - p.delta_time / SEC_IN_DAY;
 	  sat_geoLocation(pos);
 	  add_satlatlon_json("geoloc_end");
 	  add_sundata_json("sun_end");
@@ -1055,7 +1055,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 /* First time the satellite is sunlit */
     if ( !sunlit_start_found ) {
 	sunlit_start_found = true;
-	mjd_sunlit_start = t - JD_OFF;
+	mjd_sunlit_start = t - JD_OFF - p.delta_time / SEC_IN_DAY;
 
 	get_sat_PA_and_speed(t - p.delta_time / SEC_IN_DAY, rho_cos_phi, rho_sin_phi);
 
@@ -1132,6 +1132,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	add_satlatlon_json("geoloc_mid");
 	add_sundata_json("sun_mid");
 	get_sat_PA_and_speed(t, rho_cos_phi, rho_sin_phi);
+	sat.cur_mjd = mjd_sunlit_mid;
 	strcpy(sat.cur_date, mjd2date(mjd_sunlit_mid));
 	sat.ha = p.lmst - sat.ra * RAD2HRS;
 	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
@@ -1169,6 +1170,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	add_satlatlon_json("geoloc_max");
 	add_sundata_json("sun_max");
 	get_sat_PA_and_speed(t, rho_cos_phi, rho_sin_phi);
+	sat.cur_mjd = t - JD_OFF;
 	strcpy(sat.cur_date, mjd2date(t - JD_OFF));
 	sat.ha = p.lmst - sat.ra * RAD2HRS;
 	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
-- 
2.43.0


From da05559b49a8b26c532fe6e1fe0f7168d797d8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 36/61] fix: end event at the horizon or at the end of the
 range had the Sun of the previous sample or coordinates precessed twice

---
 src/sat_visibility.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 686fa8d..c31b640 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -1075,8 +1075,11 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	strcpy(sat.cur_date, mjd2date(sat.cur_mjd));
 	sat.ha = p.lmst - sat.ra * RAD2HRS;
 	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
+	double ra_of_date = sat.ra, dec_of_date = sat.dec;
 	epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
 	add_satdata_json("sat_start");
+	sat.ra = ra_of_date;  /* could be the end event too */
+	sat.dec = dec_of_date;
 	  n_sats_found++;
 
     } // end if !sunlit_start_found
@@ -1089,6 +1092,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 /* Still sunlit at the end of the requested time range */
   if ( sunlit_start_found && !sunlit_end_found ) {
 	mjd_sunlit_end = t - JD_OFF;
+	get_sun_data(t, target_ra_rad, target_dec_rad, false);
 	sat_geoLocation(pos);
 	add_satlatlon_json("geoloc_end");
 	add_sundata_json("sun_end");
-- 
2.43.0


From d92be49c92953544e5f7994e128b234405234e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:05 +0000
Subject: [PATCH 37/61] fix: speed was not a number if the position delta_time
 after an event cannot be computed

---
 src/sat_visibility.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index c31b640..9e60a90 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -557,12 +557,17 @@ void get_sun_data(double t, double target_ra_rad, double target_dec_rad, bool ge
 void get_sat_PA_and_speed(double t, double rho_cos_phi, double rho_sin_phi) {
 	double t1 = t + p.delta_time / SEC_IN_DAY, t_since = (t1 - tle.epoch) * 1440.,
 	  observer_loc[3], pos[3], ra1, dec1, d_ra, d_dec, dist_to_satellite;
+	int sat_err;
 	if ( sat.is_deep ) {
 	  SDP4_init(sat_params, &tle);
-	  SDP4(t_since, &tle, sat_params, pos, NULL);
+	  sat_err = SDP4(t_since, &tle, sat_params, pos, NULL);
 	} else {
 	  SGP4_init(sat_params, &tle);
-	  SGP4(t_since, &tle, sat_params, pos, NULL);
+	  sat_err = SGP4(t_since, &tle, sat_params, pos, NULL);
+	}
+	if ( is_propagation_error(sat_err) || isnan(pos[0] + pos[1] + pos[2]) ) {
+	  sat.parang = sat.speed = 0.;
+	  return;
 	}
 	observer_cartesian_coords(t1, p.lon * DEG2RAD, rho_cos_phi, rho_sin_phi, observer_loc);
 	get_satellite_ra_dec_delta(observer_loc, pos, &ra1, &dec1, &dist_to_satellite);  /* Returned RA, Dec in radians */
-- 
2.43.0


From abb3612cbcadd453bc115686db69413c58a4fa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:11 +0000
Subject: [PATCH 38/61] fix: tle_retrieve.sh installed partial downloads and
 wrote in the current directory if the repository was missing

---
 scripts/tle_retrieve.sh | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/scripts/tle_retrieve.sh b/scripts/tle_retrieve.sh
index 6ad85f5..baa4045 100755
--- a/scripts/tle_retrieve.sh
+++ b/scripts/tle_retrieve.sh
@@ -40,7 +40,16 @@ else
 fi
 
 # Goto destination directory
-cd $OUTDIR
+cd "$OUTDIR" || exit 1
+
+# Download a TLE file to $TMPFILE: success only if the transfer completed (not just
+# started) with success code and something was received
+get_tle() {
+	local code
+	rm -f $TMPFILE
+	code=`curl -L -s -w '%{http_code}' -o $TMPFILE --max-time $TIME "$1"` || return 1
+	[ "$code" = 200 -a -s $TMPFILE ]
+}
 
 # List of most relevant TLE files
 tlesmain=( last-30-days stations visual active analyst weather noaa goes resource sarsat dmc tdrss argos spire geo iridium iridium-NEXT globalstar swarm amateur x-comm other-comm satnogs gorizont raduga molniya gnss gps-ops glo-ops galileo beidou sbas nnss musson science geodetic engineering education military radar cubesat other )
@@ -52,7 +61,7 @@ do
 	echo -n "===> $TLE_NAME ..." | tee -a $LOGFILE
 
 	TLE=$TLE_NAME".txt"
-	if [ `curl -L -s -w '%{http_code}' -o $TMPFILE --max-time $TIME "$URL$TLE_NAME"` -eq 200 ]; then  # Check for success code
+	if get_tle "$URL$TLE_NAME"; then
 		mv $TMPFILE $TLE
 		echo retrieved. | tee -a $LOGFILE
 	else
@@ -79,7 +88,7 @@ do
 	echo -n "===> $TLE_NAME ..." | tee -a $LOGFILE
 
 	TLE=$TLE_NAME".txt"
-	if [ `curl -L -s -w '%{http_code}' -o $TMPFILE --max-time $TIME $URLSUPP$TLE_NAME` -eq 200 ]; then
+	if get_tle "$URLSUPP$TLE_NAME"; then
 		if [ $TLE_NAME = iridium ]; then
 			mv $TMPFILE iridium-NEXT.txt
 		else
@@ -108,7 +117,7 @@ do
 	echo -n "===> $TLE_NAME ..." | tee -a $LOGFILE
 
 	TLE=$TLE_NAME".txt"
-	if [ `curl -L -s -w '%{http_code}' -o $TMPFILE --max-time $TIME "$URL$TLE_NAME"` -eq 200 ]; then
+	if get_tle "$URL$TLE_NAME"; then
 		mv $TMPFILE $TLE
 		echo retrieved. | tee -a $LOGFILE
 	else
@@ -121,7 +130,7 @@ done
 # TLE files with different url/extension name (in Communications Satellites section)
   echo -n "===> SPECIAL gpz ..." | tee -a $LOGFILE
 
-  if [ `curl -L -s -w '%{http_code}' -o $TMPFILE --max-time $TIME "${URLS}gpz"` -eq 200 ]; then
+  if get_tle "${URLS}gpz"; then
 	mv $TMPFILE gpz.txt
 	echo retrieved. | tee -a $LOGFILE
   else
@@ -129,7 +138,7 @@ done
   fi
 
   echo -n "===> SPECIAL gpz-plus ..." | tee -a $LOGFILE
-  if [ `curl -L -s -w '%{http_code}' -o $TMPFILE --max-time $TIME "${URLS}gpz-plus"` -eq 200 ]; then
+  if get_tle "${URLS}gpz-plus"; then
 	mv $TMPFILE gpz-plus.txt
 	echo retrieved. | tee -a $LOGFILE
   else
-- 
2.43.0


From c540b671c92c4170bee38fc675158aa5c63778f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:32 +0000
Subject: [PATCH 39/61] fix: catalogue number read on into the classification
 column if that is a digit

---
 src/get_el.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/get_el.c b/src/get_el.c
index 359570b..570fbe0 100644
--- a/src/get_el.c
+++ b/src/get_el.c
@@ -261,7 +261,8 @@ static int get_norad_number( const char *buff)
             + digits[3] * 10 + digits[2] * 100 + (digits[1] - 10) * 1000
             + digits[0] * 24000;
    else        /* last four digits are 0-9;  'standard' NORAD desig */
-      rval = digits[0] * 10000 + atoi( buff + 1);
+      rval = digits[0] * 10000 + digits[1] * 1000 + digits[2] * 100
+            + digits[3] * 10 + digits[4];
    return( rval);
 }
 
-- 
2.43.0


From 6415c6738b6cd36924c631d3e3ea68a111a6dcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:02 +0000
Subject: [PATCH 40/61] fix: nested pixel of the directions at |z|=2/3 just
 below longitude 2*pi was out of range

---
 HealpixC/chealpix.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/HealpixC/chealpix.c b/HealpixC/chealpix.c
index d6e89c0..891d03a 100644
--- a/HealpixC/chealpix.c
+++ b/HealpixC/chealpix.c
@@ -243,7 +243,8 @@ static int ang2pix_nest_z_phi (long nside_, double z, double phi)
     int jm = (int)(temp1+temp2); /* index of descending edge line */
     int ifp = jp/nside_;  /* in {0,4} */
     int ifm = jm/nside_;
-    face_num = (ifp==ifm) ? (ifp|4) : ((ifp<ifm) ? ifp : (ifm+8));
+    /* at the corner on the meridian phi=2*pi one of them may have got to 4 */
+    face_num = (ifp==ifm) ? (ifp|4) : ((ifp<ifm) ? (ifp&3) : ((ifm&3)+8));
 
     ix = jm & (nside_-1);
     iy = nside_ - (jp & (nside_-1)) - 1;
@@ -651,7 +652,8 @@ static int64_t ang2pix_nest_z_phi64 (int64_t nside_, double z, double s,
     int64_t jm = (int64_t)(temp1+temp2); /* index of descending edge line */
     int64_t ifp = jp/nside_;  /* in {0,4} */
     int64_t ifm = jm/nside_;
-    face_num = (ifp==ifm) ? (ifp|4) : ((ifp<ifm) ? ifp : (ifm+8));
+    /* at the corner on the meridian phi=2*pi one of them may have got to 4 */
+    face_num = (ifp==ifm) ? (ifp|4) : ((ifp<ifm) ? (ifp&3) : ((ifm&3)+8));
 
     ix = jm & (nside_-1);
     iy = nside_ - (jp & (nside_-1)) - 1;
-- 
2.43.0


From 20f38b78b61015d3ce0ac05e1aec600830eb8090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:04 +0000
Subject: [PATCH 41/61] fix: ring pixel of directions rounded across |z|=2/3
 was in another quadrant

---
 HealpixC/chealpix.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/HealpixC/chealpix.c b/HealpixC/chealpix.c
index 891d03a..5c3bc14 100644
--- a/HealpixC/chealpix.c
+++ b/HealpixC/chealpix.c
@@ -292,6 +292,8 @@ static int ang2pix_ring_z_phi (long nside_, double z, double phi)
 
     /* ring number counted from z=2/3 */
     int ir = nside_ + 1 + jp - jm; /* in {1,2n+1} */
+    if (ir<1) ir = 1; /* for points too close to the boundary */
+    if (ir>2*nside_+1) ir = 2*nside_+1;
     int kshift = 1-(ir&1); /* kshift=1 if ir even, 0 otherwise */
 
     int ip = (jp+jm-nside_+kshift+1)/2; /* in {0,4n-1} */
@@ -705,6 +707,8 @@ static int64_t ang2pix_ring_z_phi64 (int64_t nside_, double z, double s,
 
     /* ring number counted from z=2/3 */
     int64_t ir = nside_ + 1 + jp - jm; /* in {1,2n+1} */
+    if (ir<1) ir = 1; /* for points too close to the boundary */
+    if (ir>2*nside_+1) ir = 2*nside_+1;
     int kshift = 1-(ir&1); /* kshift=1 if ir even, 0 otherwise */
 
     int64_t ip = (jp+jm-nside_+kshift+1)/2; /* in {0,4n-1} */
-- 
2.43.0


From 68cafb847769ef0da208377438477367944ab082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:34 +0000
Subject: [PATCH 42/61] fix: npix2nside64 rejected valid pixel counts of large
 odd resolutions

---
 HealpixC/chealpix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HealpixC/chealpix.c b/HealpixC/chealpix.c
index 5c3bc14..0dd47f5 100644
--- a/HealpixC/chealpix.c
+++ b/HealpixC/chealpix.c
@@ -826,7 +826,7 @@ static void pix2ang_nest_z_phi64 (int64_t nside_, int64_t pix, double *z,
 
 long npix2nside64(int64_t npix)
   {
-  int64_t res = isqrt64(npix/12.);
+  int64_t res = isqrt64(npix/12);
   return (res*res*12==npix) ? (long)res : -1;
   }
 
-- 
2.43.0


From 0da075aa61bfd088ec8ca80896ec5f0f95eca717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:29 +0000
Subject: [PATCH 43/61] fix: write_healpix_map reported success when the
 storage got full in the last buffer

---
 HealpixC/chealpix.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/HealpixC/chealpix.c b/HealpixC/chealpix.c
index 0dd47f5..e4d5f3e 100644
--- a/HealpixC/chealpix.c
+++ b/HealpixC/chealpix.c
@@ -906,6 +906,7 @@ void ring2nest64(int64_t nside, int64_t ipring, int64_t *ipnest)
 
 #ifdef ENABLE_FITSIO
 
+#include <sys/stat.h>
 #include "fitsio.h"
 
 #define RALLOC(type,num) \
@@ -1036,6 +1037,9 @@ void write_healpix_map (const float *signal, long nside, const char *filename,
   char *tform[] = { "1E" };
   char *tunit[] = { " " };
   char coordsys9[9];
+  char urltype[FLEN_FILENAME]="", realname[FLEN_FILENAME]="";
+  LONGLONG fileend=0;
+  struct stat st;
 
   /* create new FITS file */
   fits_create_file(&fptr, filename, &status);
@@ -1062,8 +1066,19 @@ void write_healpix_map (const float *signal, long nside, const char *filename,
     "G = Galactic, E = ecliptic, C = celestial = equatorial", &status);
 
   fits_write_col(fptr, TFLOAT, 1, 1, 1, 12*nside*nside, (void *)signal,&status);
+  if (status==0)
+    {
+    fits_get_hduaddrll(fptr, NULL, NULL, &fileend, &status);
+    fits_url_type(fptr, urltype, &status);
+    fits_file_name(fptr, realname, &status);
+    }
   fits_close_file(fptr, &status);
   printerror(status);
+
+  /* CFITSIO ignores an error when it writes out the last buffer of a file */
+  if (strcmp(urltype,"file://")==0)
+    UTIL_ASSERT((stat(realname,&st)==0)&&(st.st_size>=fileend),
+      "FITS file is incomplete");
   }
 
 #endif
-- 
2.43.0


From f0b3e459aee73196ce967d3c397fef28ec043d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:29 +0000
Subject: [PATCH 44/61] fix: position angle of the motion was wrong near the
 poles

---
 src/sat_skymap.c     | 7 +++----
 src/sat_visibility.c | 9 ++++-----
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 5cf5451..2561208 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -954,10 +954,9 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	  if ( p.sunlit_only && ! is_sunlit )
 		continue;
 
-	  d_ra = remainder(ra1 - ra, TWOPI);
-	  d_ra *= cos(dec);
-	  d_dec = dec1 - dec;
-	  posn_ang_of_motion = atan2(d_ra, d_dec);
+	  d_ra = ra1 - ra;
+	  posn_ang_of_motion = atan2(sin(d_ra) * cos(dec1),
+			cos(dec) * sin(dec1) - sin(dec) * cos(dec1) * cos(d_ra));
 	  if ( posn_ang_of_motion < 0. )
 		posn_ang_of_motion += TWOPI;
 //speed = sqrt(d_ra * d_ra + d_dec * d_dec) * RAD2DEG * 60 / p.delta_time;  // arcmin / s
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 9e60a90..e5a87a4 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -556,7 +556,7 @@ void get_sun_data(double t, double target_ra_rad, double target_dec_rad, bool ge
 
 void get_sat_PA_and_speed(double t, double rho_cos_phi, double rho_sin_phi) {
 	double t1 = t + p.delta_time / SEC_IN_DAY, t_since = (t1 - tle.epoch) * 1440.,
-	  observer_loc[3], pos[3], ra1, dec1, d_ra, d_dec, dist_to_satellite;
+	  observer_loc[3], pos[3], ra1, dec1, d_ra, dist_to_satellite;
 	int sat_err;
 	if ( sat.is_deep ) {
 	  SDP4_init(sat_params, &tle);
@@ -573,10 +573,9 @@ void get_sat_PA_and_speed(double t, double rho_cos_phi, double rho_sin_phi) {
 	get_satellite_ra_dec_delta(observer_loc, pos, &ra1, &dec1, &dist_to_satellite);  /* Returned RA, Dec in radians */
 	//-- epoch_of_date_to_j2000(t, &ra1, &dec1);  /* Do not apply precession */
 
-	d_ra = remainder(ra1 - sat.ra, TWOPI);
-	d_ra *= cos(sat.dec);
-	d_dec = dec1 - sat.dec;
-	sat.parang = atan2(d_ra, d_dec);
+	d_ra = ra1 - sat.ra;
+	sat.parang = atan2(sin(d_ra) * cos(dec1),
+			cos(sat.dec) * sin(dec1) - sin(sat.dec) * cos(dec1) * cos(d_ra));
 	if ( sat.parang < 0. )
 		sat.parang += TWOPI;
 	sat.speed = skysep_h(sat.ra, sat.dec, ra1, dec1) * 60 / p.delta_time;  /* arcminutes/second */
-- 
2.43.0


From f66cdfcae24b8e5cd34cf84d27bed81b824e6094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:12 +0000
Subject: [PATCH 45/61] fix: end-epoch position was precessed for the start
 epoch

---
 src/sat_skymap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 2561208..084a51b 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -915,7 +915,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(1);
 	}
-	epoch_of_date_to_j2000(jd, &ra1, &dec1);
+	epoch_of_date_to_j2000(jd + p.delta_time / SEC_IN_DAY, &ra1, &dec1);
 /* Approx or precise separation? */
 	if ( !p.haversine ) {
 	  if ( p.geoloc_reference ) {
-- 
2.43.0


From 207721fa3ebe850310f485e3e9b631540e9cc0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:02 +0000
Subject: [PATCH 46/61] fix: epoch day without a decimal point was read beyond
 its field (endless propagation)

---
 src/get_el.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/get_el.c b/src/get_el.c
index 570fbe0..fffbca0 100644
--- a/src/get_el.c
+++ b/src/get_el.c
@@ -268,7 +268,11 @@ static int get_norad_number( const char *buff)
 
 static inline double get_eight_places( const char *ptr)
 {
-   return( (double)atoi( ptr) + (double)atoi(ptr + 4) * 1e-8);
+   char tbuff[4];
+
+   memcpy( tbuff, ptr, 3);    /* integer part:  don't run on into what follows */
+   tbuff[3] = '\0';
+   return( (double)atoi( tbuff) + (double)atoi(ptr + 4) * 1e-8);
 }
 
 /* Meteor 2-08                                                           */
-- 
2.43.0


From b8954f09a6ec3b42921d54320cec8c0be98c9859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:28 +0000
Subject: [PATCH 47/61] fix: tle_retrieve.sh: a gps.txt left over by an
 interrupted run replaced the newer gps-ops.txt

---
 scripts/tle_retrieve.sh | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/scripts/tle_retrieve.sh b/scripts/tle_retrieve.sh
index baa4045..bc2e025 100755
--- a/scripts/tle_retrieve.sh
+++ b/scripts/tle_retrieve.sh
@@ -91,6 +91,8 @@ do
 	if get_tle "$URLSUPP$TLE_NAME"; then
 		if [ $TLE_NAME = iridium ]; then
 			mv $TMPFILE iridium-NEXT.txt
+		elif [ $TLE_NAME = gps ]; then	# Patch for gps file name mismatch
+			mv $TMPFILE gps-ops.txt
 		else
 			mv $TMPFILE $TLE
 		fi
@@ -102,11 +104,6 @@ do
 
 done
 
-# Patch for gps file name mismatch
-if [ -f gps.txt ]; then
-	mv gps.txt gps-ops.txt
-fi
-
 
 
 # List of Debris TLE files
-- 
2.43.0


From 49d28c21a846f47a0e77c43849559b1017678fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:28 +0000
Subject: [PATCH 48/61] fix: tle_retrieve.sh: the satellite count was made (and
 written) in the default directory, not in the given one

---
 scripts/tle_retrieve.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/tle_retrieve.sh b/scripts/tle_retrieve.sh
index bc2e025..194fd66 100755
--- a/scripts/tle_retrieve.sh
+++ b/scripts/tle_retrieve.sh
@@ -191,6 +191,6 @@ awk '/CHEOPS|TESS/ { print ; for(n=0; n<2; n++) { getline ; print } }' active.tx
 #
 # Produce the updated list of number of sats in the TLE file. Comment out if not needed.
 #
-$BINDIR/tle_satcount.sh
+$BINDIR/tle_satcount.sh "$PWD"
 
 date | tee -a $LOGFILE
-- 
2.43.0


From 4929cdeb35ea2c837ebeb9bbf464d7036d9fe428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:45 +0000
Subject: [PATCH 49/61] fix: an orbit entirely inside the Earth was flagged as
 perigee inside the Earth

---
 src/common.c | 2 +-
 src/sgp.c    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common.c b/src/common.c
index a6586b6..7baa15a 100644
--- a/src/common.c
+++ b/src/common.c
@@ -184,7 +184,7 @@ int sxpx_posn_vel( const double xnode, const double a, const double ecc,
       return( rval);
    if( a * (1. - ecc) < 1. && a * (1. + ecc) < 1.)   /* entirely within earth */
       rval = SXPX_WARN_ORBIT_WITHIN_EARTH;     /* remember, e can be negative */
-   if( a * (1. - ecc) < 1. || a * (1. + ecc) < 1.)   /* perigee within earth */
+   else if( a * (1. - ecc) < 1. || a * (1. + ecc) < 1.)   /* perigee within earth */
       rval = SXPX_WARN_PERIGEE_WITHIN_EARTH;
   /* Solve Kepler's' Equation */
    for( i = 0; i < MAX_KEPLER_ITER; i++)
diff --git a/src/sgp.c b/src/sgp.c
index 5f83f2d..194580a 100644
--- a/src/sgp.c
+++ b/src/sgp.c
@@ -96,7 +96,7 @@ int DLL_FUNC SGP( const double tsince, const tle_t *tle, const double *params,
    a = ao * pow( tle->xno / a, two_thirds);
    if( a * (1. - e) < 1. && a * (1. + e) < 1.)   /* entirely within earth */
       rval = SXPX_WARN_ORBIT_WITHIN_EARTH;     /* remember, e can be negative */
-   if( a * (1. - e) < 1. || a * (1. + e) < 1.)   /* perigee within earth */
+   else if( a * (1. - e) < 1. || a * (1. + e) < 1.)   /* perigee within earth */
       rval = SXPX_WARN_PERIGEE_WITHIN_EARTH;
    if (a > qo) e = 1.-qo/a;
    p = a*(1.-e*e);
-- 
2.43.0


From c2872159d3160e56a2dfefbe871274ae3d1515a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 50/61] fix: SGP judged eccentricity and perigee before
 computing the eccentricity, and gave NaN for nearly parabolic orbits

---
 src/sgp.c | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/sgp.c b/src/sgp.c
index 194580a..39bfce6 100644
--- a/src/sgp.c
+++ b/src/sgp.c
@@ -78,10 +78,25 @@ int DLL_FUNC SGP( const double tsince, const tle_t *tle, const double *params,
 
     /* Update for secular gravity and atmospheric drag */
    a = tle->xno+(tle->xndt2o*2.+tle->xndd6o*3.*tsince)*tsince;
-   if( a < 0.)
-      rval = SXPX_ERR_NEGATIVE_MAJOR_AXIS;
    e = e6a;
-   if( e > 1. - chicken_factor_on_eccentricity)
+   axnsl = aynsl = p = xnodes = 0.;
+   if( a <= 0. || ao <= 0.)
+      rval = SXPX_ERR_NEGATIVE_MAJOR_AXIS;
+   else
+      {
+      a = ao * pow( tle->xno / a, two_thirds);
+      if (a > qo) e = 1.-qo/a;
+      p = a*(1.-e*e);
+      xnodes = tle->xnodeo+xnodot*tsince;
+      omgas = tle->omegao+omgdt*tsince;
+
+      /* Long period periodics */
+      axnsl = e*cos(omgas);
+      aynsl = e*sin(omgas)-c6/p;
+      }
+   el2 = axnsl*axnsl+aynsl*aynsl;
+   if( !rval && !(e <= 1. - chicken_factor_on_eccentricity
+               && el2 <= 1. - chicken_factor_on_eccentricity))
       rval = SXPX_ERR_NEARLY_PARABOLIC;
    if( rval)
       {
@@ -93,22 +108,14 @@ int DLL_FUNC SGP( const double tsince, const tle_t *tle, const double *params,
          }
       return( rval);
       }
-   a = ao * pow( tle->xno / a, two_thirds);
    if( a * (1. - e) < 1. && a * (1. + e) < 1.)   /* entirely within earth */
       rval = SXPX_WARN_ORBIT_WITHIN_EARTH;     /* remember, e can be negative */
    else if( a * (1. - e) < 1. || a * (1. + e) < 1.)   /* perigee within earth */
       rval = SXPX_WARN_PERIGEE_WITHIN_EARTH;
-   if (a > qo) e = 1.-qo/a;
-   p = a*(1.-e*e);
-   xnodes = tle->xnodeo+xnodot*tsince;
-   omgas = tle->omegao+omgdt*tsince;
    r1 = xlo+(tle->xno+omgdt+xnodot+
        (tle->xndt2o+tle->xndd6o*tsince)*tsince)*tsince;
    xls = FMod2p(r1);
 
-   /* Long period periodics */
-   axnsl = e*cos(omgas);
-   aynsl = e*sin(omgas)-c6/p;
    r1 = xls-c5/p*axnsl;
    xl = FMod2p(r1);
 
@@ -135,7 +142,6 @@ int DLL_FUNC SGP( const double tsince, const tle_t *tle, const double *params,
    /* Short period preliminary quantities */
    ecose = axnsl*coseo1+aynsl*sineo1;
    esine = axnsl*sineo1-aynsl*coseo1;
-   el2 = axnsl*axnsl+aynsl*aynsl;
    pl = a*(1.-el2);
    pl2 = pl*pl;
    rr = a*(1.-ecose);
-- 
2.43.0


From 7d247fe73d19db25a91378beb4a943a1105b1c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:23 +0000
Subject: [PATCH 51/61] fix: SGP8 and SDP8 gave NaN or meaningless positions
 without an error code for decayed and nearly parabolic orbits

---
 src/sdp8.c | 24 +++++++++++++++++++++++-
 src/sgp8.c | 23 ++++++++++++++++++++++-
 2 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/src/sdp8.c b/src/sdp8.c
index bb98892..25a0ae6 100644
--- a/src/sdp8.c
+++ b/src/sdp8.c
@@ -125,6 +125,17 @@ int DLL_FUNC SDP8( const double tsince, const tle_t *tle, const double *params,
   xmam = deep_arg->xll;
   xmam = FMod2p(xmam);
 
+   if( !(deep_arg->xn > 0.) || !(fabs( deep_arg->em) <= 1. - 1.e-6))
+      {                     /* orbit has decayed or is nearly parabolic */
+      for( i = 0; i < 3; i++)
+         {
+         pos[i] = 0.;
+         if( vel)
+            vel[i] = 0.;
+         }
+      return( deep_arg->xn > 0. ? SXPX_ERR_NEARLY_PARABOLIC : SXPX_ERR_NEGATIVE_XN);
+      }
+
   /* Solve Kepler's equation */
   zc2 = xmam+deep_arg->em*sin(xmam)*(deep_arg->em*cos(xmam)+1.);
 
@@ -188,6 +199,16 @@ int DLL_FUNC SDP8( const double tsince, const tle_t *tle, const double *params,
      (deep_arg->cosio+1.)-(ecosf+2.)*csfg);
   y4 = sinio2*snfg+csfg*sni2du+snfg*.5*cosi2*di;
   y5 = sinio2*csfg-snfg*sni2du+csfg*.5*cosi2*di;
+   if( !(y4*y4+y5*y5 <= 1.+1e-12))   /* nearly retrograde equatorial orbit */
+      {                              /* for which the equations are singular */
+      for( i = 0; i < 3; i++)
+         {
+         pos[i] = 0.;
+         if( vel)
+            vel[i] = 0.;
+         }
+      return( SXPX_ERR_CONVERGENCE_FAIL);
+      }
   rr = rm+dr;
   rdot = deep_arg->xn*am*deep_arg->em*snf/beta+g14*(g2*2.*unmth2*sn2f2g+g4*csfg);
   r1 = am;
@@ -202,7 +223,8 @@ int DLL_FUNC SDP8( const double tsince, const tle_t *tle, const double *params,
   temp = (y5*cslamb+y4*snlamb)*2.;
   uy = -y4*temp+snlamb;
   vy = -y5*temp+cslamb;
-  temp = sqrt(1.-y4*y4-y5*y5)*2.;
+  temp = 1.-y4*y4-y5*y5;
+  temp = (temp > 0. ? sqrt(temp)*2. : 0.);
   uz = y4*temp;
   vz = y5*temp;
 
diff --git a/src/sgp8.c b/src/sgp8.c
index 43c6b01..67878a9 100644
--- a/src/sgp8.c
+++ b/src/sgp8.c
@@ -261,6 +261,16 @@ int DLL_FUNC SGP8( const double tsince, const tle_t *tle, const double *params,
       z1 = xndt*.5*tsince*tsince;
     }  /* if(isFlagClear(SIMPLE_FLAG)) */
 
+   if( !(xn > 0.) || !(fabs( em) <= 1. - 1.e-6))
+      {                     /* orbit has decayed or is nearly parabolic */
+      for( i = 0; i < 3; i++)
+         {
+         pos[i] = 0.;
+         if( vel)
+            vel[i] = 0.;
+         }
+      return( xn > 0. ? SXPX_ERR_NEARLY_PARABOLIC : SXPX_ERR_NEGATIVE_XN);
+      }
   z7 = two_thirds*3.5*z1/xnodp_;
   r1 = xmam+z1+z7*xmdt1;
   xmam = FMod2p(r1);
@@ -327,6 +337,16 @@ int DLL_FUNC SGP8( const double tsince, const tle_t *tle, const double *params,
           (cosi*axnm/(cosi+1.)-(ecosf+2.)*csfg);
   y4 = sini2*snfg+csfg*sni2du+snfg*.5*cosi2*di;
   y5 = sini2*csfg-snfg*sni2du+csfg*.5*cosi2*di;
+   if( !(y4*y4+y5*y5 <= 1.+1e-12))   /* nearly retrograde equatorial orbit */
+      {                              /* for which the equations are singular */
+      for( i = 0; i < 3; i++)
+         {
+         pos[i] = 0.;
+         if( vel)
+            vel[i] = 0.;
+         }
+      return( SXPX_ERR_CONVERGENCE_FAIL);
+      }
   rr = rm+dr;
   rdot = xn*am*em*snf/beta+g14*(g2*2.*unmth2*sn2f2g+g4*csfg);
   r1 = am;
@@ -342,7 +362,8 @@ int DLL_FUNC SGP8( const double tsince, const tle_t *tle, const double *params,
   temp = (y5*cslamb+y4*snlamb)*2.;
   uy = -y4*temp+snlamb;
   vy = -y5*temp+cslamb;
-  temp = sqrt(1.-y4*y4-y5*y5)*2.;
+  temp = 1.-y4*y4-y5*y5;
+  temp = (temp > 0. ? sqrt(temp)*2. : 0.);
   uz = y4*temp;
   vz = y5*temp;
 
-- 
2.43.0


From e314742a394f95a731a43b09b3f8181d7695bfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:26 +0000
Subject: [PATCH 52/61] fix: deep-space orbits of low inclination jumped when
 the node had drifted by more than one and a half turns

---
 src/deep.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/deep.c b/src/deep.c
index 4cb41da..9b45588 100644
--- a/src/deep.c
+++ b/src/deep.c
@@ -748,10 +748,8 @@ void Deep_dpper( const tle_t *tle, deep_arg_t *deep_arg)
        /* by Rob Matson, streamlined very slightly by BJG, to */
        /* keep 'delta_xnode' between +/- 180 degrees: */
 
-      if( delta_xnode < - pi)
-         delta_xnode += twopi;
-      else if( delta_xnode > pi)
-         delta_xnode -= twopi;
+      if( fabs( delta_xnode) > pi)
+         delta_xnode -= twopi * floor( delta_xnode / twopi + .5);
 
       dls = -deep_arg->xnode * sinis * deep_arg->pinc;
 #ifdef SPACETRACK_3
-- 
2.43.0


From a16e1c7632b193a74f8e6cdcfcaf72c9a4c040ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:45 +0000
Subject: [PATCH 53/61] fix: division by zero for orbits of 180 degrees
 inclination

---
 src/common.c | 3 ++-
 src/sdp8.c   | 3 ++-
 src/sgp.c    | 2 +-
 src/sgp8.c   | 2 +-
 4 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/common.c b/src/common.c
index 7baa15a..18a31d1 100644
--- a/src/common.c
+++ b/src/common.c
@@ -136,7 +136,8 @@ int sxpx_posn_vel( const double xnode, const double a, const double ecc,
   /* Long period periodics */
    const double axn = ecc*cos(omega);
    double temp = 1/(a*(1.-ecc*ecc));
-   const double xlcof = .125 * a3ovk2 * sinio * (3+5*cosio)/ (1. + cosio);
+   const double one_plus_cosio = (1. + cosio > 1.5e-12 ? 1. + cosio : 1.5e-12);
+   const double xlcof = .125 * a3ovk2 * sinio * (3+5*cosio)/ one_plus_cosio;
    const double aycof = 0.25 * a3ovk2 * sinio;
    const double xll = temp*xlcof*axn;
    const double aynl = temp*aycof;
diff --git a/src/sdp8.c b/src/sdp8.c
index 25a0ae6..c37ead6 100644
--- a/src/sdp8.c
+++ b/src/sdp8.c
@@ -196,7 +196,8 @@ int DLL_FUNC SDP8( const double tsince, const tle_t *tle, const double *params,
   xlamb = fm+deep_arg->omgadf+deep_arg->xnode+g3*((deep_arg->cosio*6.+
      1.-deep_arg->cosio2*7.)*.5*sn2f2g-(unm5th+deep_arg->cosio*2.)*
      3.*g10)+g5*deep_arg->sinio*(deep_arg->cosio*axnm/
-     (deep_arg->cosio+1.)-(ecosf+2.)*csfg);
+     (deep_arg->cosio+1. > 1.5e-12 ? deep_arg->cosio+1. : 1.5e-12)-
+     (ecosf+2.)*csfg);
   y4 = sinio2*snfg+csfg*sni2du+snfg*.5*cosi2*di;
   y5 = sinio2*csfg-snfg*sni2du+csfg*.5*cosi2*di;
    if( !(y4*y4+y5*y5 <= 1.+1e-12))   /* nearly retrograde equatorial orbit */
diff --git a/src/sgp.c b/src/sgp.c
index 39bfce6..822d238 100644
--- a/src/sgp.c
+++ b/src/sgp.c
@@ -56,7 +56,7 @@ void DLL_FUNC SGP_init( double *params, const tle_t *tle)
    po2no = tle->xno/(po*po);
    omgdt = c1*po2no*(cosio*5.*cosio-1.);
    xnodot = d3o*-2.*po2no;
-   c5 = c4*.5*sinio*(cosio*5.+3.)/(cosio+1.);
+   c5 = c4*.5*sinio*(cosio*5.+3.)/(cosio+1. > 1.5e-12 ? cosio+1. : 1.5e-12);
    c6 = c4*sinio;
 }
 
diff --git a/src/sgp8.c b/src/sgp8.c
index 67878a9..f6a76b6 100644
--- a/src/sgp8.c
+++ b/src/sgp8.c
@@ -334,7 +334,7 @@ int DLL_FUNC SGP8( const double tsince, const tle_t *tle, const double *params,
       g5*sini*csfg*(ecosf+2.))-g5*.5f*cosio_2*axnm/cosi2;
   xlamb = fm+omgasm+xnodes+g3*((cosi*6.+1.-cosio_2*7.)*
      .5*sn2f2g-(unm5th+cosi*2.)*3.*g10)+g5*sini*
-          (cosi*axnm/(cosi+1.)-(ecosf+2.)*csfg);
+          (cosi*axnm/(cosi+1. > 1.5e-12 ? cosi+1. : 1.5e-12)-(ecosf+2.)*csfg);
   y4 = sini2*snfg+csfg*sni2du+snfg*.5*cosi2*di;
   y5 = sini2*csfg-snfg*sni2du+csfg*.5*cosi2*di;
    if( !(y4*y4+y5*y5 <= 1.+1e-12))   /* nearly retrograde equatorial orbit */
-- 
2.43.0


From 2443f75d6e38a698247f7abc7133c3923a1d6a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:55 +0000
Subject: [PATCH 54/61] fix: high-orbit model: two terms of the Moon's position
 were not those of Meeus' table 47.A (an argument and a digit)

---
 src/sdp4.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sdp4.c b/src/sdp4.c
index ce983e4..c72070e 100644
--- a/src/sdp4.c
+++ b/src/sdp4.c
@@ -56,7 +56,7 @@ static void lunar_solar_position( const double jd, double *lunar_xyzr, double *s
                         + (1.274027 * pi / 180.) * sin( term2)
                         + (0.658314 * pi / 180.) * sin( 2. * lunar_mean_elong)
                         + (0.213618 * pi / 180.) * sin( 2. * m_prime)
-                        - (0.185166 * pi / 180.) * sin( m_solar)
+                        - (0.185116 * pi / 180.) * sin( m_solar)
                         - (0.114332 * pi / 180.) * sin( 2. * f);
    const double lunar_lat = (5.128122 * pi / 180.) * sin( f)
                           + (0.280602 * pi / 180.) * sin( m_prime + f)
@@ -66,7 +66,7 @@ static void lunar_solar_position( const double jd, double *lunar_xyzr, double *s
                          - 20905355. * cos( m_prime)
                          -  3699111. * cos( term2)
                          -  2955968  * cos( 2. * lunar_mean_elong)
-                         -   569925  * cos( 2. * m_solar);
+                         -   569925  * cos( 2. * m_prime);
    const double solar_ecc = 0.016708634;     /* (25.4) */
    const double solar_lon = l_solar          /* (above (25.5)) */
                         + (1.914602 * pi / 180.) * sin( m_solar);
-- 
2.43.0


From 20ec977d05df65daf5976711a5757e333113ceba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 55/61] fix: tle_satcount.sh worked in the current directory
 when the TLE directory is missing or has a blank in its name

---
 scripts/tle_satcount.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/tle_satcount.sh b/scripts/tle_satcount.sh
index 3ac284c..2a81c7c 100755
--- a/scripts/tle_satcount.sh
+++ b/scripts/tle_satcount.sh
@@ -27,7 +27,7 @@ else
 fi
 
 # Goto TLE dir
-cd $TLEDIR
+cd "$TLEDIR" || exit 1
 
 # Remove old log files (if they exist)
 rm -f $OUTFILE $OUTFILE_DEB $OUTFILE_NORAD
-- 
2.43.0


From 49f10e84281e1a7a7523877c03e7eec7a588ea61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 56/61] fix: tle_satcount.sh counted catalogue numbers left
 over by an interrupted run

---
 scripts/tle_satcount.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/tle_satcount.sh b/scripts/tle_satcount.sh
index 2a81c7c..b8504b4 100755
--- a/scripts/tle_satcount.sh
+++ b/scripts/tle_satcount.sh
@@ -29,8 +29,8 @@ fi
 # Goto TLE dir
 cd "$TLEDIR" || exit 1
 
-# Remove old log files (if they exist)
-rm -f $OUTFILE $OUTFILE_DEB $OUTFILE_NORAD
+# Remove old log files and left-overs of an interrupted run (if they exist)
+rm -f $OUTFILE $OUTFILE_DEB $OUTFILE_NORAD ${OUTFILE_NORAD}_tmp
 
 # List of most relevant TLE files, excluding debris
 tlesmain=( last-30-days stations visual active analyst weather noaa goes resource sarsat dmc tdrss argos spire geo iridium iridium-NEXT globalstar swarm amateur x-comm other-comm satnogs gorizont raduga molniya gnss gps-ops glo-ops galileo beidou sbas nnss musson science geodetic engineering education military radar cubesat other gpz gpz-plus )
-- 
2.43.0


From e53e1023ab03bf02cd22cbe66da8d63d879cdecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:31 +0000
Subject: [PATCH 57/61] fix: the merged lists named files that are no longer
 retrieved and lacked retrieved ones

---
 ALL_merged.lis       | 8 ++++++--
 ALL_merged_nodeb.lis | 6 +++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/ALL_merged.lis b/ALL_merged.lis
index be89cde..5f9d995 100644
--- a/ALL_merged.lis
+++ b/ALL_merged.lis
@@ -1,7 +1,7 @@
 active.txt
 visual.txt
 stations.txt
-tle-new.txt
+last-30-days.txt
 analyst.txt
 weather.txt
 noaa.txt
@@ -16,6 +16,10 @@ spire.txt
 geo.txt
 intelsat.txt
 ses.txt
+telesat.txt
+glonass.txt
+meteosat.txt
+cpf.txt
 iridium.txt
 iridium-NEXT.txt
 oneweb.txt
@@ -48,7 +52,7 @@ cubesat.txt
 other.txt
 gpz.txt
 gpz-plus.txt
-2019-006.txt
+1982-092.txt
 1999-025.txt
 iridium-33-debris.txt
 cosmos-2251-debris.txt
diff --git a/ALL_merged_nodeb.lis b/ALL_merged_nodeb.lis
index 97a7f8e..c100b41 100644
--- a/ALL_merged_nodeb.lis
+++ b/ALL_merged_nodeb.lis
@@ -1,7 +1,7 @@
 active.txt
 visual.txt
 stations.txt
-tle-new.txt
+last-30-days.txt
 analyst.txt
 weather.txt
 noaa.txt
@@ -16,6 +16,10 @@ spire.txt
 geo.txt
 intelsat.txt
 ses.txt
+telesat.txt
+glonass.txt
+meteosat.txt
+cpf.txt
 iridium.txt
 iridium-NEXT.txt
 oneweb.txt
-- 
2.43.0


From 5c99a850fdfbe6603e5db65bf5dc36fd31ef322c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:31 +0000
Subject: [PATCH 58/61] fix: tle_retrieve.sh did not find the spacecraft files
 when given a relative directory

---
 scripts/tle_retrieve.sh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/tle_retrieve.sh b/scripts/tle_retrieve.sh
index 194fd66..27c9f72 100755
--- a/scripts/tle_retrieve.sh
+++ b/scripts/tle_retrieve.sh
@@ -152,7 +152,7 @@ awk '/CHEOPS|TESS/ { print ; for(n=0; n<2; n++) { getline ; print } }' active.tx
 
 
 # Add Gaia TLE from 2025 list (see https://github.com/Bill-Gray/tles/ => 13074a25.tle)
-  if [ ! -f $OUTDIR/gaia_2025.txt ]; then
+  if [ ! -f gaia_2025.txt ]; then
 	echo To have Gaia TLEs move gaia_2025.txt from the scripts to the TLE dir.
   else
 # Use approx int MJD. See also the C code in src directory.
@@ -161,7 +161,7 @@ awk '/CHEOPS|TESS/ { print ; for(n=0; n<2; n++) { getline ; print } }' active.tx
   fi
 
 # Add James Webb TLE from 2025 list (see https://github.com/Bill-Gray/tles/ => 21130a25.tle)
-  if [ ! -f $OUTDIR/jwt_2025.txt ]; then
+  if [ ! -f jwt_2025.txt ]; then
 	echo To have JWT TLEs move jwt_2025.txt from the scripts to the TLE dir.
   else
 # Use approx int MJD. See also the C code in src directory.
@@ -170,7 +170,7 @@ awk '/CHEOPS|TESS/ { print ; for(n=0; n<2; n++) { getline ; print } }' active.tx
   fi
 
 # Add EUCLID TLE from 2025 list (see https://github.com/Bill-Gray/tles/ => 23092a25.tle)
-  if [ ! -f $OUTDIR/euclid_2025.txt ]; then
+  if [ ! -f euclid_2025.txt ]; then
 	echo To have JWT TLEs move euclid_2025.txt from the scripts to the TLE dir.
   else
 # Use approx int MJD. See also the C code in src directory.
@@ -179,7 +179,7 @@ awk '/CHEOPS|TESS/ { print ; for(n=0; n<2; n++) { getline ; print } }' active.tx
   fi
 
 # Add JUICE TLE from 2024 list (see https://github.com/Bill-Gray/tles/ => 23053a.tle - 2025 not present)
-  if [ ! -f $OUTDIR/juice_2024.txt ]; then
+  if [ ! -f juice_2024.txt ]; then
 	echo To have JUICE TLEs move juice_2024.txt from the scripts to the TLE dir.
   else
 # Use approx int MJD. See also the C code in src directory.
-- 
2.43.0


From f69f798b1f4c5212af3cff9b6dcec1af3c3fb446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:23 +0000
Subject: [PATCH 59/61] fix: sat_visibility kept every file of a list open, a
 long list failed when the descriptors ran out

---
 src/sat_visibility.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index e5a87a4..f862b0e 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -899,6 +899,8 @@ int main(int argc, char **argv)
 	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
 	exit(2);
     }
+    fclose(ifile);
+    ifile = NULL;
   }  // end while read_tle_list
 
   if ( !single_sat_found && input_list && ferror(lisfile) ) {
-- 
2.43.0


From 6c8bd139bebf2962b2a04fb44c219a6a356193d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:16 +0000
Subject: [PATCH 60/61] fix: pixel of a very short or very long vector was out
 of range

---
 HealpixC/chealpix.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/HealpixC/chealpix.c b/HealpixC/chealpix.c
index e4d5f3e..811d85a 100644
--- a/HealpixC/chealpix.c
+++ b/HealpixC/chealpix.c
@@ -404,7 +404,7 @@ void ang2vec(double theta, double phi, double *vec)
 
 void vec2ang(const double *vec, double *theta, double *phi)
   {
-  *theta = atan2(sqrt(vec[0]*vec[0]+vec[1]*vec[1]),vec[2]);
+  *theta = atan2(hypot(vec[0],vec[1]),vec[2]);
   *phi = atan2 (vec[1],vec[0]);
   if (*phi<0.) *phi += twopi;
   }
@@ -430,12 +430,12 @@ void ang2pix_nest(long nside, double theta, double phi, long *ipix)
   }
 void vec2pix_ring(long nside, const double *vec, long *ipix)
   {
-  double vlen=sqrt(vec[0]*vec[0]+vec[1]*vec[1]+vec[2]*vec[2]);
+  double vlen=hypot(hypot(vec[0],vec[1]),vec[2]);
   *ipix=ang2pix_ring_z_phi (nside,vec[2]/vlen, atan2(vec[1],vec[0]));
   }
 void vec2pix_nest(long nside, const double *vec, long *ipix)
   {
-  double vlen=sqrt(vec[0]*vec[0]+vec[1]*vec[1]+vec[2]*vec[2]);
+  double vlen=hypot(hypot(vec[0],vec[1]),vec[2]);
   *ipix=ang2pix_nest_z_phi (nside,vec[2]/vlen, atan2(vec[1],vec[0]));
   }
 void pix2ang_ring(long nside, long ipix, double *theta, double *phi)
@@ -847,16 +847,16 @@ void ang2pix_nest64(int64_t nside, double theta, double phi, int64_t *ipix)
   }
 void vec2pix_ring64(int64_t nside, const double *vec, int64_t *ipix)
   {
-  double vlen=sqrt(vec[0]*vec[0]+vec[1]*vec[1]+vec[2]*vec[2]);
+  double vlen=hypot(hypot(vec[0],vec[1]),vec[2]);
   double cth = vec[2]/vlen;
-  double sth=(fabs(cth)>0.99) ? sqrt(vec[0]*vec[0]+vec[1]*vec[1])/vlen : -5;
+  double sth=(fabs(cth)>0.99) ? hypot(vec[0],vec[1])/vlen : -5;
   *ipix=ang2pix_ring_z_phi64 (nside,cth,sth,atan2(vec[1],vec[0]));
   }
 void vec2pix_nest64(int64_t nside, const double *vec, int64_t *ipix)
   {
-  double vlen=sqrt(vec[0]*vec[0]+vec[1]*vec[1]+vec[2]*vec[2]);
+  double vlen=hypot(hypot(vec[0],vec[1]),vec[2]);
   double cth = vec[2]/vlen;
-  double sth=(fabs(cth)>0.99) ? sqrt(vec[0]*vec[0]+vec[1]*vec[1])/vlen : -5;
+  double sth=(fabs(cth)>0.99) ? hypot(vec[0],vec[1])/vlen : -5;
   *ipix=ang2pix_nest_z_phi64 (nside,cth,sth,atan2(vec[1],vec[0]));
   }
 void pix2ang_ring64(int64_t nside, int64_t ipix, double *theta, double *phi)
-- 
2.43.0


From 386021b7cbcc91f1be52a916086c391da4bebb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:04 +0000
Subject: [PATCH 61/61] fix: text that is not UTF-8 (satellite name, argument)
 made the JSON document malformed

---
 src/sat_skymap.c     | 31 +++++++++++++++++++++++++++----
 src/sat_visibility.c | 31 +++++++++++++++++++++++++++----
 2 files changed, 54 insertions(+), 8 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 084a51b..2cfcc12 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -205,17 +205,40 @@ void Usage() {
 
 
 /*
-  Print a string as JSON string content (quotes, backslashes and control characters escaped)
+  Length of the (multi-byte) UTF-8 character at s; 0 if it is not a valid one
+*/
+static int utf8_len(const unsigned char *s) {
+  int i, n = *s < 0xc2 ? 0 : *s < 0xe0 ? 2 : *s < 0xf0 ? 3 : *s < 0xf5 ? 4 : 0;
+
+  for ( i = 1; i < n; i++ )
+	if ( (s[i] & 0xc0) != 0x80 )
+	  return 0;
+
+/* Longer than needed, surrogate, beyond U+10FFFF */
+  if ( (*s == 0xe0 && s[1] < 0xa0) || (*s == 0xed && s[1] > 0x9f) || (*s == 0xf0 && s[1] < 0x90) || (*s == 0xf4 && s[1] > 0x8f) )
+	return 0;
+
+  return n;
+}
+
+/*
+  Print a string as JSON string content (quotes, backslashes and control characters escaped).
+  Bytes that are not valid UTF-8 are taken as ISO 8859-1 characters.
 */
 void put_json(const char *s) {
+  int n;
+
   for ( ; *s; s++ ) {
 	unsigned char c = *s;
+	n = c < 128 ? 1 : utf8_len((const unsigned char *)s);
 	if ( c == '"' || c == '\\' )
 	  printf("\\%c", c);
-	else if ( c < 32 || c == 127 )
+	else if ( c < 32 || c == 127 || n == 0 )
 	  printf("\\u%04x", c);
-	else
-	  putchar(c);
+	else {
+	  fwrite(s, 1, n, stdout);
+	  s += n - 1;
+	}
   }
 }
 
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index f862b0e..283a6ef 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -349,17 +349,40 @@ void Usage() {
 
 
 /*
-  Print a string as JSON string content (quotes, backslashes and control characters escaped)
+  Length of the (multi-byte) UTF-8 character at s; 0 if it is not a valid one
+*/
+static int utf8_len(const unsigned char *s) {
+  int i, n = *s < 0xc2 ? 0 : *s < 0xe0 ? 2 : *s < 0xf0 ? 3 : *s < 0xf5 ? 4 : 0;
+
+  for ( i = 1; i < n; i++ )
+	if ( (s[i] & 0xc0) != 0x80 )
+	  return 0;
+
+/* Longer than needed, surrogate, beyond U+10FFFF */
+  if ( (*s == 0xe0 && s[1] < 0xa0) || (*s == 0xed && s[1] > 0x9f) || (*s == 0xf0 && s[1] < 0x90) || (*s == 0xf4 && s[1] > 0x8f) )
+	return 0;
+
+  return n;
+}
+
+/*
+  Print a string as JSON string content (quotes, backslashes and control characters escaped).
+  Bytes that are not valid UTF-8 are taken as ISO 8859-1 characters.
 */
 void put_json(const char *s) {
+  int n;
+
   for ( ; *s; s++ ) {
 	unsigned char c = *s;
+	n = c < 128 ? 1 : utf8_len((const unsigned char *)s);
 	if ( c == '"' || c == '\\' )
 	  printf("\\%c", c);
-	else if ( c < 32 || c == 127 )
+	else if ( c < 32 || c == 127 || n == 0 )
 	  printf("\\u%04x", c);
-	else
-	  putchar(c);
+	else {
+	  fwrite(s, 1, n, stdout);
+	  s += n - 1;
+	}
   }
 }
 
-- 
2.43.0

