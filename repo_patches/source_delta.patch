From 58be1f183bc41273ff1dd368da239dd68758b593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:29 +0000
Subject: [PATCH 01/47] fix: wrap signal indices of the direct wavelet
 transforms when the filter is longer than the signal

---
 src/wavelib.c | 156 +++++++++--------------------------------------
 src/wtmath.c  | 165 +++++++++++++++-----------------------------------
 src/wtmath.h  |   4 ++
 3 files changed, 79 insertions(+), 246 deletions(-)

diff --git a/src/wavelib.c b/src/wavelib.c
index cddc3cb..dad25b1 100644
--- a/src/wavelib.c
+++ b/src/wavelib.c
@@ -299,54 +299,19 @@ static void dwt_per(wt_object wt, double *inp, int N, double *cA, int len_cA, do
 }
 
 static void wtree_per(wtree_object wt, double *inp, int N, double *cA, int len_cA, double *cD) {
-	int l, l2, isodd, i, t, len_avg;
+	int l, l2, i, t, len_avg, is;
 
 	len_avg = wt->wave->lpd_len;
 	l2 = len_avg / 2;
-	isodd = N % 2;
 
 	for (i = 0; i < len_cA; ++i) {
 		t = 2 * i + l2;
 		cA[i] = 0.0;
 		cD[i] = 0.0;
 		for (l = 0; l < len_avg; ++l) {
-			if ((t - l) >= l2 && (t - l) < N) {
-				cA[i] += wt->wave->lpd[l] * inp[t - l];
-				cD[i] += wt->wave->hpd[l] * inp[t - l];
-			}
-			else if ((t - l) < l2 && (t - l) >= 0) {
-				cA[i] += wt->wave->lpd[l] * inp[t - l];
-				cD[i] += wt->wave->hpd[l] * inp[t - l];
-			}
-			else if ((t - l) < 0 && isodd == 0) {
-				cA[i] += wt->wave->lpd[l] * inp[t - l + N];
-				cD[i] += wt->wave->hpd[l] * inp[t - l + N];
-			}
-			else if ((t - l) < 0 && isodd == 1) {
-				if ((t - l) != -1) {
-					cA[i] += wt->wave->lpd[l] * inp[t - l + N + 1];
-					cD[i] += wt->wave->hpd[l] * inp[t - l + N + 1];
-				}
-				else {
-					cA[i] += wt->wave->lpd[l] * inp[N - 1];
-					cD[i] += wt->wave->hpd[l] * inp[N - 1];
-				}
-			}
-			else if ((t - l) >= N && isodd == 0) {
-				cA[i] += wt->wave->lpd[l] * inp[t - l - N];
-				cD[i] += wt->wave->hpd[l] * inp[t - l - N];
-			}
-			else if ((t - l) >= N && isodd == 1) {
-				if (t - l != N) {
-					cA[i] += wt->wave->lpd[l] * inp[t - l - (N + 1)];
-					cD[i] += wt->wave->hpd[l] * inp[t - l - (N + 1)];
-				}
-				else {
-					cA[i] += wt->wave->lpd[l] * inp[N - 1];
-					cD[i] += wt->wave->hpd[l] * inp[N - 1];
-				}
-			}
-
+			is = per_index(t - l, N);
+			cA[i] += wt->wave->lpd[l] * inp[is];
+			cD[i] += wt->wave->hpd[l] * inp[is];
 		}
 	}
 
@@ -355,54 +320,19 @@ static void wtree_per(wtree_object wt, double *inp, int N, double *cA, int len_c
 }
 
 static void dwpt_per(wpt_object wt, double *inp, int N, double *cA, int len_cA, double *cD) {
-	int l, l2, isodd, i, t, len_avg;
+	int l, l2, i, t, len_avg, is;
 
 	len_avg = wt->wave->lpd_len;
 	l2 = len_avg / 2;
-	isodd = N % 2;
 
 	for (i = 0; i < len_cA; ++i) {
 		t = 2 * i + l2;
 		cA[i] = 0.0;
 		cD[i] = 0.0;
 		for (l = 0; l < len_avg; ++l) {
-			if ((t - l) >= l2 && (t - l) < N) {
-				cA[i] += wt->wave->lpd[l] * inp[t - l];
-				cD[i] += wt->wave->hpd[l] * inp[t - l];
-			}
-			else if ((t - l) < l2 && (t - l) >= 0) {
-				cA[i] += wt->wave->lpd[l] * inp[t - l];
-				cD[i] += wt->wave->hpd[l] * inp[t - l];
-			}
-			else if ((t - l) < 0 && isodd == 0) {
-				cA[i] += wt->wave->lpd[l] * inp[t - l + N];
-				cD[i] += wt->wave->hpd[l] * inp[t - l + N];
-			}
-			else if ((t - l) < 0 && isodd == 1) {
-				if ((t - l) != -1) {
-					cA[i] += wt->wave->lpd[l] * inp[t - l + N + 1];
-					cD[i] += wt->wave->hpd[l] * inp[t - l + N + 1];
-				}
-				else {
-					cA[i] += wt->wave->lpd[l] * inp[N - 1];
-					cD[i] += wt->wave->hpd[l] * inp[N - 1];
-				}
-			}
-			else if ((t - l) >= N && isodd == 0) {
-				cA[i] += wt->wave->lpd[l] * inp[t - l - N];
-				cD[i] += wt->wave->hpd[l] * inp[t - l - N];
-			}
-			else if ((t - l) >= N && isodd == 1) {
-				if (t - l != N) {
-					cA[i] += wt->wave->lpd[l] * inp[t - l - (N + 1)];
-					cD[i] += wt->wave->hpd[l] * inp[t - l - (N + 1)];
-				}
-				else {
-					cA[i] += wt->wave->lpd[l] * inp[N - 1];
-					cD[i] += wt->wave->hpd[l] * inp[N - 1];
-				}
-			}
-
+			is = per_index(t - l, N);
+			cA[i] += wt->wave->lpd[l] * inp[is];
+			cD[i] += wt->wave->hpd[l] * inp[is];
 		}
 	}
 
@@ -416,7 +346,7 @@ static void dwt_sym(wt_object wt, double *inp, int N, double *cA, int len_cA, do
 }
 
 static void wtree_sym(wtree_object wt, double *inp, int N, double *cA, int len_cA, double *cD) {
-	int i, l, t, len_avg;
+	int i, l, t, len_avg, is;
 
 	len_avg = wt->wave->lpd_len;
 
@@ -425,19 +355,9 @@ static void wtree_sym(wtree_object wt, double *inp, int N, double *cA, int len_c
 		cA[i] = 0.0;
 		cD[i] = 0.0;
 		for (l = 0; l < len_avg; ++l) {
-			if ((t - l) >= 0 && (t - l) < N) {
-				cA[i] += wt->wave->lpd[l] * inp[t - l];
-				cD[i] += wt->wave->hpd[l] * inp[t - l];
-			}
-			else if ((t - l) < 0) {
-				cA[i] += wt->wave->lpd[l] * inp[-t + l - 1];
-				cD[i] += wt->wave->hpd[l] * inp[-t + l - 1];
-			}
-			else if ((t - l) >= N) {
-				cA[i] += wt->wave->lpd[l] * inp[2 * N - t + l - 1];
-				cD[i] += wt->wave->hpd[l] * inp[2 * N - t + l - 1];
-			}
-
+			is = symm_index(t - l, N);
+			cA[i] += wt->wave->lpd[l] * inp[is];
+			cD[i] += wt->wave->hpd[l] * inp[is];
 		}
 	}
 
@@ -445,7 +365,7 @@ static void wtree_sym(wtree_object wt, double *inp, int N, double *cA, int len_c
 }
 
 static void dwpt_sym(wpt_object wt, double *inp, int N, double *cA, int len_cA, double *cD) {
-	int i, l, t, len_avg;
+	int i, l, t, len_avg, is;
 
 	len_avg = wt->wave->lpd_len;
 
@@ -454,19 +374,9 @@ static void dwpt_sym(wpt_object wt, double *inp, int N, double *cA, int len_cA,
 		cA[i] = 0.0;
 		cD[i] = 0.0;
 		for (l = 0; l < len_avg; ++l) {
-			if ((t - l) >= 0 && (t - l) < N) {
-				cA[i] += wt->wave->lpd[l] * inp[t - l];
-				cD[i] += wt->wave->hpd[l] * inp[t - l];
-			}
-			else if ((t - l) < 0) {
-				cA[i] += wt->wave->lpd[l] * inp[-t + l - 1];
-				cD[i] += wt->wave->hpd[l] * inp[-t + l - 1];
-			}
-			else if ((t - l) >= N) {
-				cA[i] += wt->wave->lpd[l] * inp[2 * N - t + l - 1];
-				cD[i] += wt->wave->hpd[l] * inp[2 * N - t + l - 1];
-			}
-
+			is = symm_index(t - l, N);
+			cA[i] += wt->wave->lpd[l] * inp[is];
+			cD[i] += wt->wave->hpd[l] * inp[is];
 		}
 	}
 
@@ -709,18 +619,12 @@ static void getDWTRecCoeff(double *coeff, int *length, const char *ctype, const
 				X_lp[n] = 0.0;
 				for (l = 0; l < l2; ++l) {
 					t = 2 * l;
-					if ((i - l) >= 0 && (i - l) < det_len) {
-						X_lp[m] += filt[t] * out[i - l];
-						X_lp[n] += filt[t + 1] * out[i - l];
-					}
-					else if ((i - l) >= det_len && (i - l) < det_len + lf - 1) {
-						X_lp[m] += filt[t] * out[i - l - det_len];
-						X_lp[n] += filt[t + 1] * out[i - l - det_len];
-					}
-					else if ((i - l) < 0 && (i - l) > -l2) {
-						X_lp[m] += filt[t] * out[det_len + i - l];
-						X_lp[n] += filt[t + 1] * out[det_len + i - l];
+					v = (i - l) % det_len;
+					if (v < 0) {
+						v += det_len;
 					}
+					X_lp[m] += filt[t] * out[v];
+					X_lp[n] += filt[t + 1] * out[v];
 				}
 			}
 
@@ -1543,7 +1447,7 @@ void idwt(wt_object wt, double *dwtop) {
 }
 
 static void idwpt_per(wpt_object wt, double *cA, int len_cA, double *cD, double *X) {
-	int len_avg, i, l, m, n, t, l2;
+	int len_avg, i, l, m, n, t, l2, is;
 
 	len_avg = (wt->wave->lpr_len + wt->wave->hpr_len) / 2;
 	l2 = len_avg / 2;
@@ -1557,18 +1461,12 @@ static void idwpt_per(wpt_object wt, double *cA, int len_cA, double *cD, double
 		X[n] = 0.0;
 		for (l = 0; l < l2; ++l) {
 			t = 2 * l;
-			if ((i - l) >= 0 && (i - l) < len_cA) {
-				X[m] += wt->wave->lpr[t] * cA[i - l] + wt->wave->hpr[t] * cD[i - l];
-				X[n] += wt->wave->lpr[t + 1] * cA[i - l] + wt->wave->hpr[t + 1] * cD[i - l];
-			}
-			else if ((i - l) >= len_cA && (i - l) < len_cA + len_avg - 1) {
-				X[m] += wt->wave->lpr[t] * cA[i - l - len_cA] + wt->wave->hpr[t] * cD[i - l - len_cA];
-				X[n] += wt->wave->lpr[t + 1] * cA[i - l - len_cA] + wt->wave->hpr[t + 1] * cD[i - l - len_cA];
-			}
-			else if ((i - l) < 0 && (i - l) > -l2) {
-				X[m] += wt->wave->lpr[t] * cA[len_cA + i - l] + wt->wave->hpr[t] * cD[len_cA + i - l];
-				X[n] += wt->wave->lpr[t + 1] * cA[len_cA + i - l] + wt->wave->hpr[t + 1] * cD[len_cA + i - l];
+			is = (i - l) % len_cA;
+			if (is < 0) {
+				is += len_cA;
 			}
+			X[m] += wt->wave->lpr[t] * cA[is] + wt->wave->hpr[t] * cD[is];
+			X[n] += wt->wave->lpr[t + 1] * cA[is] + wt->wave->hpr[t + 1] * cD[is];
 		}
 	}
 }
diff --git a/src/wtmath.c b/src/wtmath.c
index 6566ea8..d166300 100644
--- a/src/wtmath.c
+++ b/src/wtmath.c
@@ -4,12 +4,38 @@ Copyright (c) 2018, Rafat Hussain
 */
 #include "wtmath.h"
 
+int per_index(int t, int N) {
+	// Index of sample t of the periodic extension of a signal of length N.
+	// A signal of odd length is extended by its last sample first.
+	int P;
+
+	P = N + (N % 2);
+	t %= P;
+	if (t < 0) {
+		t += P;
+	}
+
+	return t < N ? t : N - 1;
+}
+
+int symm_index(int t, int N) {
+	// Index of sample t of the half point symmetric extension of a signal of length N.
+	int P;
+
+	P = 2 * N;
+	t %= P;
+	if (t < 0) {
+		t += P;
+	}
+
+	return t < N ? t : P - 1 - t;
+}
+
 void dwt_per_stride(double *inp, int N, double *lpd,double*hpd,int lpd_len,double *cA, int len_cA, double *cD, int istride, int ostride) {
-	int l, l2, isodd, i, t, len_avg,is,os;
+	int l, l2, i, t, len_avg,is,os;
 
 	len_avg = lpd_len;
 	l2 = len_avg / 2;
-	isodd = N % 2;
 
 	for (i = 0; i < len_cA; ++i) {
 		t = 2 * i + l2;
@@ -17,51 +43,9 @@ void dwt_per_stride(double *inp, int N, double *lpd,double*hpd,int lpd_len,doubl
 		cA[os] = 0.0;
 		cD[os] = 0.0;
 		for (l = 0; l < len_avg; ++l) {
-			if ((t - l) >= l2 && (t - l) < N) {
-				is = (t - l) * istride;
-				cA[os] += lpd[l] * inp[is];
-				cD[os] += hpd[l] * inp[is];
-			}
-			else if ((t - l) < l2 && (t - l) >= 0) {
-				is = (t - l) * istride;
-				cA[os] += lpd[l] * inp[is];
-				cD[os] += hpd[l] * inp[is];
-			}
-			else if ((t - l) < 0 && isodd == 0) {
-				is = (t - l + N) * istride;
-				cA[os] += lpd[l] * inp[is];
-				cD[os] += hpd[l] * inp[is];
-			}
-			else if ((t - l) < 0 && isodd == 1) {
-				if ((t - l) != -1) {
-					is = (t - l + N + 1) * istride;
-					cA[os] += lpd[l] * inp[is];
-					cD[os] += hpd[l] * inp[is];
-				}
-				else {
-					is = (N - 1) * istride;
-					cA[os] += lpd[l] * inp[is];
-					cD[os] += hpd[l] * inp[is];
-				}
-			}
-			else if ((t - l) >= N && isodd == 0) {
-				is = (t - l - N) * istride;
-				cA[os] += lpd[l] * inp[is];
-				cD[os] += hpd[l] * inp[is];
-			}
-			else if ((t - l) >= N && isodd == 1) {
-				is = (t - l - (N + 1)) * istride;
-				if (t - l != N) {
-					cA[os] += lpd[l] * inp[is];
-					cD[os] += hpd[l] * inp[is];
-				}
-				else {
-					is = (N - 1) * istride;
-					cA[os] += lpd[l] * inp[is];
-					cD[os] += hpd[l] * inp[is];
-				}
-			}
-
+			is = per_index(t - l, N) * istride;
+			cA[os] += lpd[l] * inp[is];
+			cD[os] += hpd[l] * inp[is];
 		}
 		
 	}
@@ -79,22 +63,9 @@ void dwt_sym_stride(double *inp, int N, double *lpd, double*hpd, int lpd_len, do
 		cA[os] = 0.0;
 		cD[os] = 0.0;
 		for (l = 0; l < len_avg; ++l) {
-			if ((t - l) >= 0 && (t - l) < N) {
-				is = (t - l) * istride;
-				cA[os] += lpd[l] * inp[is];
-				cD[os] += hpd[l] * inp[is];
-			}
-			else if ((t - l) < 0) {
-				is = (-t + l - 1) * istride;
-				cA[os] += lpd[l] * inp[is];
-				cD[os] += hpd[l] * inp[is];
-			}
-			else if ((t - l) >= N) {
-				is = (2 * N - t + l - 1) * istride;
-				cA[os] += lpd[l] * inp[is];
-				cD[os] += hpd[l] * inp[is];
-			}
-
+			is = symm_index(t - l, N) * istride;
+			cA[os] += lpd[l] * inp[is];
+			cD[os] += hpd[l] * inp[is];
 		}
 	}
 
@@ -132,56 +103,24 @@ void modwt_per_stride(int M, double *inp, int N, double *filt, int lpd_len, doub
 }
 
 void swt_per_stride(int M, double *inp, int N, double *lpd, double*hpd, int lpd_len, double *cA, int len_cA, double *cD, int istride, int ostride) {
-	int l, l2, isodd, i, t, len_avg, j;
+	int l, l2, i, t, len_avg, j;
 	int is, os;
 	len_avg = M * lpd_len;
 	l2 = len_avg / 2;
-	isodd = N % 2;
 
 	for (i = 0; i < len_cA; ++i) {
 		t = i + l2;
 		os = i *ostride;
 		cA[os] = 0.0;
 		cD[os] = 0.0;
-		l = -1;
-		for (j = 0; j < len_avg; j += M) {
-			l++;
-			while (j >= len_cA) {
-				j -= len_cA;
-			}
-			if ((t - j) >= l2 && (t - j) < N) {
-				is = (t - j)*istride;
-				cA[os] += lpd[l] * inp[is];
-				cD[os] += hpd[l] * inp[is];
-			}
-			else if ((t - j) < l2 && (t - j) >= 0) {
-				is = (t - j)*istride;
-				cA[os] += lpd[l] * inp[is];
-				cD[os] += hpd[l] * inp[is];
-			}
-			else if ((t - j) < 0) {
-				is = (t - j + N)*istride;
-				cA[os] += lpd[l] * inp[is];
-				cD[os] += hpd[l] * inp[is];
+		for (l = 0; l < lpd_len; ++l) {
+			j = (t - l * M) % N;
+			if (j < 0) {
+				j += N;
 			}
-			else if ((t - j) >= N && isodd == 0) {
-				is = (t - j - N)*istride;
-				cA[os] += lpd[l] * inp[is];
-				cD[os] += hpd[l] * inp[is];
-			}
-			else if ((t - j) >= N && isodd == 1) {
-				if (t - l != N) {
-					is = (t - j - (N + 1))*istride;
-					cA[os] += lpd[l] * inp[is];
-					cD[os] += hpd[l] * inp[is];
-				}
-				else {
-					is = (N - 1)*istride;
-					cA[os] += lpd[l] * inp[is];
-					cD[os] += hpd[l] * inp[N - 1];
-				}
-			}
-
+			is = j * istride;
+			cA[os] += lpd[l] * inp[is];
+			cD[os] += hpd[l] * inp[is];
 		}
 	}
 
@@ -205,21 +144,13 @@ void idwt_per_stride(double *cA, int len_cA, double *cD, double *lpr, double *hp
 		X[ns] = 0.0;
 		for (l = 0; l < l2; ++l) {
 			t = 2 * l;
-			if ((i - l) >= 0 && (i - l) < len_cA) {
-				is = (i - l) * istride;
-				X[ms] += lpr[t] * cA[is] + hpr[t] * cD[is];
-				X[ns] += lpr[t + 1] * cA[is] + hpr[t + 1] * cD[is];
-			}
-			else if ((i - l) >= len_cA && (i - l) < len_cA + len_avg - 1) {
-				is = (i - l - len_cA) * istride;
-				X[ms] += lpr[t] * cA[is] + hpr[t] * cD[is];
-				X[ns] += lpr[t + 1] * cA[is] + hpr[t + 1] * cD[is];
-			}
-			else if ((i - l) < 0 && (i - l) > -l2) {
-				is = (len_cA + i - l) * istride;
-				X[ms] += lpr[t] * cA[is] + hpr[t] * cD[is];
-				X[ns] += lpr[t + 1] * cA[is] + hpr[t + 1] * cD[is];
+			is = (i - l) % len_cA;
+			if (is < 0) {
+				is += len_cA;
 			}
+			is *= istride;
+			X[ms] += lpr[t] * cA[is] + hpr[t] * cD[is];
+			X[ns] += lpr[t + 1] * cA[is] + hpr[t + 1] * cD[is];
 		}
 	}
 }
diff --git a/src/wtmath.h b/src/wtmath.h
index 4fddfe9..ec8cd2f 100644
--- a/src/wtmath.h
+++ b/src/wtmath.h
@@ -17,6 +17,10 @@ double *cA, int len_cA, double *cD, int istride, int ostride);
 void dwt_sym_stride(double *inp, int N, double *lpd, double*hpd, int lpd_len,
 double *cA, int len_cA, double *cD, int istride, int ostride);
 
+int per_index(int t, int N);
+
+int symm_index(int t, int N);
+
 void modwt_per_stride(int M, double *inp, int N, double *filt, int lpd_len, 
 double *cA, int len_cA, double *cD, int istride, int ostride);
 
-- 
2.43.0


From cb6807c1cdb152a5caae5e71ee0e682a945840db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:31 +0000
Subject: [PATCH 02/47] fix: periodize the modwt filters when they are longer
 than the signal

---
 src/wavelib.c | 78 ++++++++++++++++-----------------------------------
 1 file changed, 24 insertions(+), 54 deletions(-)

diff --git a/src/wavelib.c b/src/wavelib.c
index dad25b1..7e8dd32 100644
--- a/src/wavelib.c
+++ b/src/wavelib.c
@@ -2323,10 +2323,26 @@ static void modwt_direct(wt_object wt, const double *inp) {
 
 }
 
+static void modwt_filter(const double *filt, int len_avg, fft_data *sig, int N) {
+	// Rescaled filter, periodized to the length N of the transform
+	int i;
+	double s;
+
+	s = sqrt(2.0);
+
+	for (i = 0; i < N; ++i) {
+		sig[i].re = 0.0;
+		sig[i].im = 0.0;
+	}
+	for (i = 0; i < len_avg; ++i) {
+		sig[i % N].re += (fft_type)filt[i] / s;
+	}
+}
+
 static void modwt_fft(wt_object wt, const double *inp) {
 	int i, J, temp_len, iter, M,N, len_avg;
 	int lenacc;
-	double s,tmp1,tmp2;
+	double tmp1,tmp2;
 	fft_data  *cA, *cD, *low_pass,*high_pass,*sig;
 	int *index;
 	fft_object fft_fd = NULL;
@@ -2344,7 +2360,6 @@ static void modwt_fft(wt_object wt, const double *inp) {
 	wt->length[0] = wt->length[J] = N;
 	wt->outlength = wt->length[J + 1] = (J + 1) * N;
 
-	s = sqrt(2.0);
 	for (iter = 1; iter < J; ++iter) {
 		wt->length[iter] = N;
 	}
@@ -2364,28 +2379,14 @@ static void modwt_fft(wt_object wt, const double *inp) {
 
 	// Low Pass Filter
 
-	for(i = 0; i < len_avg;++i) {
-		sig[i].re = (fft_type) wt->wave->lpd[i] / s;
-		sig[i].im = 0.0;
-	}
-	for(i = len_avg; i < N;++i) {
-		sig[i].re = 0.0;
-		sig[i].im = 0.0;
-	}
+	modwt_filter(wt->wave->lpd, len_avg, sig, N);
 
 
 	fft_exec(fft_fd, sig, low_pass);
 
 	// High Pass Filter
 
-	for (i = 0; i < len_avg; ++i) {
-		sig[i].re = (fft_type)wt->wave->hpd[i] / s;
-		sig[i].im = 0.0;
-	}
-	for (i = len_avg; i < N; ++i) {
-		sig[i].re = 0.0;
-		sig[i].im = 0.0;
-	}
+	modwt_filter(wt->wave->hpd, len_avg, sig, N);
 
 	fft_exec(fft_fd, sig, high_pass);
 
@@ -2543,7 +2544,6 @@ double* getMODWTmra(wt_object wt, double *wavecoeffs) {
 	double *mra;
 	int i, J, temp_len, iter, M, N, len_avg,lmra;
 	int lenacc;
-	double s;
 	fft_data  *cA, *cD, *low_pass, *high_pass, *sig,*ninp;
 	int *index;
 	fft_object fft_fd = NULL;
@@ -2559,7 +2559,6 @@ double* getMODWTmra(wt_object wt, double *wavecoeffs) {
 	}
 	J = wt->J;
 
-	s = sqrt(2.0);
 	fft_fd = fft_init(N, 1);
 	fft_bd = fft_init(N, -1);
 
@@ -2576,28 +2575,14 @@ double* getMODWTmra(wt_object wt, double *wavecoeffs) {
 
 	// Low Pass Filter
 
-	for (i = 0; i < len_avg; ++i) {
-		sig[i].re = (fft_type)wt->wave->lpd[i] / s;
-		sig[i].im = 0.0;
-	}
-	for (i = len_avg; i < N; ++i) {
-		sig[i].re = 0.0;
-		sig[i].im = 0.0;
-	}
+	modwt_filter(wt->wave->lpd, len_avg, sig, N);
 
 
 	fft_exec(fft_fd, sig, low_pass);
 
 	// High Pass Filter
 
-	for (i = 0; i < len_avg; ++i) {
-		sig[i].re = (fft_type)wt->wave->hpd[i] / s;
-		sig[i].im = 0.0;
-	}
-	for (i = len_avg; i < N; ++i) {
-		sig[i].re = 0.0;
-		sig[i].im = 0.0;
-	}
+	modwt_filter(wt->wave->hpd, len_avg, sig, N);
 
 	fft_exec(fft_fd, sig, high_pass);
 
@@ -2662,7 +2647,7 @@ double* getMODWTmra(wt_object wt, double *wavecoeffs) {
 void imodwt_fft(wt_object wt, double *oup) {
 	int i, J, temp_len, iter, M, N, len_avg;
 	int lenacc;
-	double s, tmp1, tmp2;
+	double tmp1, tmp2;
 	fft_data  *cA, *cD, *low_pass, *high_pass, *sig;
 	int *index;
 	fft_object fft_fd = NULL;
@@ -2678,7 +2663,6 @@ void imodwt_fft(wt_object wt, double *oup) {
 	}
 	J = wt->J;
 
-	s = sqrt(2.0);
 	fft_fd = fft_init(N, 1);
 	fft_bd = fft_init(N, -1);
 
@@ -2694,28 +2678,14 @@ void imodwt_fft(wt_object wt, double *oup) {
 
 	// Low Pass Filter
 
-	for (i = 0; i < len_avg; ++i) {
-		sig[i].re = (fft_type)wt->wave->lpd[i] / s;
-		sig[i].im = 0.0;
-	}
-	for (i = len_avg; i < N; ++i) {
-		sig[i].re = 0.0;
-		sig[i].im = 0.0;
-	}
+	modwt_filter(wt->wave->lpd, len_avg, sig, N);
 
 
 	fft_exec(fft_fd, sig, low_pass);
 
 	// High Pass Filter
 
-	for (i = 0; i < len_avg; ++i) {
-		sig[i].re = (fft_type)wt->wave->hpd[i] / s;
-		sig[i].im = 0.0;
-	}
-	for (i = len_avg; i < N; ++i) {
-		sig[i].re = 0.0;
-		sig[i].im = 0.0;
-	}
+	modwt_filter(wt->wave->hpd, len_avg, sig, N);
 
 	fft_exec(fft_fd, sig, high_pass);
 
-- 
2.43.0


From 4b4c28c51a4c3f7210c2cf5a336186c14c9a779e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:34 +0000
Subject: [PATCH 03/47] fix: release the index arrays of modwt and the
 convolution objects of iswt

---
 src/wavelib.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/wavelib.c b/src/wavelib.c
index 7e8dd32..7ec24f6 100644
--- a/src/wavelib.c
+++ b/src/wavelib.c
@@ -2202,6 +2202,11 @@ void iswt(wt_object wt, double *swtop) {
 				oup01[i - lf + 1] = oup00L[i] + oup00H[i];
 			}
 
+			if (wt->cfftset == 1) {
+				free_conv(wt->cobj);
+				wt->cfftset = 0;
+			}
+
 			circshift(oup01, 2*len0, -1);
 
 			index2 = 0;
@@ -2445,6 +2450,7 @@ static void modwt_fft(wt_object wt, const double *inp) {
 	free(cD);
 	free(low_pass);
 	free(high_pass);
+	free(index);
 	free_fft(fft_fd);
 	free_fft(fft_bd);
 }
@@ -2742,6 +2748,7 @@ void imodwt_fft(wt_object wt, double *oup) {
 	free(cD);
 	free(low_pass);
 	free(high_pass);
+	free(index);
 	free_fft(fft_fd);
 	free_fft(fft_bd);
 }
-- 
2.43.0


From 2677feb0932466c6fae105c93194cbb2f683258e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:37 +0000
Subject: [PATCH 04/47] fix: reconstruct the modwt details from the detail
 coefficients

---
 src/wavelib.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wavelib.c b/src/wavelib.c
index 7ec24f6..8e5f0d9 100644
--- a/src/wavelib.c
+++ b/src/wavelib.c
@@ -2627,10 +2627,10 @@ double* getMODWTmra(wt_object wt, double *wavecoeffs) {
 			ninp[i].im = 0.0;
 		}
 
-		getMODWTRecCoeff(fft_fd, fft_bd, sig, ninp,cA, cD, index, "det", J-iter, J, low_pass, high_pass, N);
+		getMODWTRecCoeff(fft_fd, fft_bd, ninp, sig, cA, cD, index, "det", J-iter, J, low_pass, high_pass, N);
 
 		for (i = 0; i < wt->siglength; ++i) {
-			mra[lmra+i] = sig[i].re;
+			mra[lmra+i] = ninp[i].re;
 		}
 
 		lenacc += N;
-- 
2.43.0


From 2b85801458965abf8c1e79c3e3209bfce2ee1fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:39 +0000
Subject: [PATCH 05/47] fix: dwpt and modwt on a used object do not take the
 sizes of the previous run

---
 src/wavelib.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wavelib.c b/src/wavelib.c
index 8e5f0d9..faf5d49 100644
--- a/src/wavelib.c
+++ b/src/wavelib.c
@@ -889,7 +889,7 @@ void dwpt(wpt_object wt, const double *inp) {
 	temp = 1;
 	elength = 0;
 	size = wt->wave->filtlength;
-	nodes = wt->nodes;
+	nodes = 2 * (ipow2(J) - 1); // wt->nodes holds the best basis of an earlier run
 	n1 = nodes + 1;
 	for (i = 0; i < J; ++i) {
 		temp *= 2;
@@ -2287,6 +2287,7 @@ static void modwt_direct(wt_object wt, const double *inp) {
 
 	temp_len = wt->siglength;
 	J = wt->J;
+	wt->modwtsiglength = temp_len;
 	wt->length[0] = wt->length[J] = temp_len;
 	wt->outlength = wt->length[J + 1] = (J + 1) * temp_len;
 	M = 1;
-- 
2.43.0


From 9bca3b1b7ad5a76aa3c2ad2930a8c29235dee559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:27 +0000
Subject: [PATCH 06/47] fix: size the dwt and packet work arrays for levels
 longer than a short signal

---
 src/wavelib.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/wavelib.c b/src/wavelib.c
index faf5d49..94cfd44 100644
--- a/src/wavelib.c
+++ b/src/wavelib.c
@@ -468,8 +468,10 @@ void dwt(wt_object wt,const double *inp) {
 	wt->length[J + 1] = temp_len;
 	wt->outlength = 0;
 	wt->zpad = 0;
-	orig = (double*)malloc(sizeof(double)* temp_len);
-	orig2 = (double*)malloc(sizeof(double)* temp_len);
+	lp = wt->wave->lpd_len;
+	// With symmetric extension a level can be longer than a short input, up to the filter length
+	orig = (double*)malloc(sizeof(double)* (temp_len + lp));
+	orig2 = (double*)malloc(sizeof(double)* (temp_len + lp));
 	/*
 	if ((temp_len % 2) == 0) {
 	wt->zpad = 0;
@@ -493,7 +495,6 @@ void dwt(wt_object wt,const double *inp) {
 	}
 
 	N = temp_len;
-	lp = wt->wave->lpd_len;
 
 	if (!strcmp(wt->ext,"per")) {
 		i = J;
@@ -580,7 +581,7 @@ static void getDWTRecCoeff(double *coeff, int *length, const char *ctype, const
 
 	int i, j, k, det_len, N, l, m, n, v, t, l2;
 	double *out, *X_lp, *filt;
-	out = (double*)malloc(sizeof(double)* (siglength + 1));
+	out = (double*)malloc(sizeof(double)* (siglength + 1 + lf));
 	l2 = lf / 2;
 	m = -2;
 	n = -1;
@@ -1291,7 +1292,7 @@ void idwt(wt_object wt, double *dwtop) {
 	J = wt->J;
 	U = 2;
 	app_len = wt->length[0];
-	out = (double*)malloc(sizeof(double)* (wt->siglength + 1));
+	out = (double*)malloc(sizeof(double)* (wt->siglength + 1 + wt->wave->lpr_len));
 	if (!strcmp(wt->ext, "per") && (!strcmp(wt->cmethod, "fft") || !strcmp(wt->cmethod, "FFT"))) {
 		app_len = wt->length[0];
 		det_len = wt->length[1];
@@ -1387,7 +1388,7 @@ void idwt(wt_object wt, double *dwtop) {
 	else if (!strcmp(wt->ext, "sym") && (!strcmp(wt->cmethod, "fft") || !strcmp(wt->cmethod, "FFT"))) {
 		lf = wt->wave->lpd_len;// lpd and hpd have the same length
 
-		N = 2 * wt->length[J] - 1;
+		N = 2 * (wt->length[J] + lf) - 1;
 		cA_up = (double*)malloc(sizeof(double)* N);
 		X_lp = (double*)malloc(sizeof(double)* (N + lf - 1));
 		X_hp = (double*)malloc(sizeof(double)* (N + lf - 1));
@@ -1508,8 +1509,8 @@ void idwpt(wpt_object wt, double *dwtop) {
 
 	X_lp = (double*)malloc(sizeof(double)* 2 * (wt->length[J] + lf));
 	X = (double*)malloc(sizeof(double)* xlen);
-	out = (double*)malloc(sizeof(double)* wt->length[J]);
-	out2 = (double*)malloc(sizeof(double)* wt->length[J]);
+	out = (double*)malloc(sizeof(double)* (wt->length[J] + lf));
+	out2 = (double*)malloc(sizeof(double)* (wt->length[J] + lf));
 	prep = (int*)malloc(sizeof(int)* p);
 	ptemp = (int*)malloc(sizeof(int)* p);
 	n1 = 1;
-- 
2.43.0


From b80c9c474f50a3a4dcfc0b27f556d2427405bf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:02 +0000
Subject: [PATCH 07/47] fix: release the work arrays when as154 rejects its
 starting values

---
 src/emle.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index cf21961..501603b 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1473,7 +1473,10 @@ int as154(double *inp, int N, int optmethod, int p, int d, int q, double *phi, d
 		Q = 0;
 
 		ERR = checkroots_cerr(phi, &p, theta, &q, NULL, &P, NULL, &Q);
-		if (ERR == 10 || ERR == 12) return ERR;
+		if (ERR == 10 || ERR == 12) {
+			free(x);
+			return ERR;
+		}
 
 		coeff = *wmean;
 	}
@@ -2710,7 +2713,10 @@ int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, in
 		css_seas(inp, N, optmethod, p, d, q, s, P, D, Q, phi, theta, PHI, THETA, wmean, var, loglik, hess);
 
 		ERR = checkroots_cerr(phi, &p, theta, &q, PHI, &P, THETA, &Q);
-		if (ERR == 10 || ERR == 12) return ERR;
+		if (ERR == 10 || ERR == 12) {
+			free(inp2);
+			return ERR;
+		}
 
 		coeff = *wmean;
 	}
-- 
2.43.0


From e3d3b1f32f95291fbfdb7ff80e71997c7da42cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:05 +0000
Subject: [PATCH 08/47] fix: css uses the differenced length once for residuals
 and covariance

---
 src/emle.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index 501603b..a012a1d 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1319,7 +1319,7 @@ int css(double *inp, int N, int optmethod, int p, int d, int q, double *phi, dou
 	mtranspose(hess, pq, pq, thess);
 
 	for (i = 0; i < pq*pq; ++i) {
-		thess[i] = (N - d) * 0.5 * (hess[i] + thess[i]);
+		thess[i] = N * 0.5 * (hess[i] + thess[i]);
 	}
 
 
@@ -1351,7 +1351,7 @@ int css(double *inp, int N, int optmethod, int p, int d, int q, double *phi, dou
 	}
 	*/
 	*var = (obj->ssq) / (double)N;
-	for (i = 0; i < N - d; ++i) {
+	for (i = 0; i < N; ++i) {
 		resid[i] = obj->x[N+i];
 	}
 	*loglik = obj->loglik;
@@ -2142,7 +2142,7 @@ int css_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int
 	mtranspose(hess, pq, pq, thess);
 
 	for (i = 0; i < pq*pq; ++i) {
-		thess[i] = (N - d - s*D) * 0.5 * (hess[i] + thess[i]);
+		thess[i] = N * 0.5 * (hess[i] + thess[i]);
 	}
 
 
@@ -2527,7 +2527,7 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 	mtranspose(hess, pq, pq, thess);
 
 	for (i = 0; i < pq*pq; ++i) {
-		thess[i] = (N - d - s*D) * 0.5 * (hess[i] + thess[i]);
+		thess[i] = N * 0.5 * (hess[i] + thess[i]);
 	}
 
 
-- 
2.43.0


From 9b5541c517bdb2f88f8b37167bd26eef61f825a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:08 +0000
Subject: [PATCH 09/47] fix: cssx clears the starting values of the caller's
 arrays in place

---
 src/emle.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index a012a1d..08560f4 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -2331,13 +2331,13 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 			phi[i] = 0.0;
 		}
 		for (i = 0; i < q; ++i) {
-			theta[p + i] = 0.0;
+			theta[i] = 0.0;
 		}
 		for (i = 0; i < P; ++i) {
-			PHI[p + q + i] = 0.0;
+			PHI[i] = 0.0;
 		}
 		for (i = 0; i < Q; ++i) {
-			THETA[p + q + P + i] = 0.0;
+			THETA[i] = 0.0;
 		}
 	}
 
-- 
2.43.0


From 581d8de4a19821bfbd7ba65d9ccec829a4cfee8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:11 +0000
Subject: [PATCH 10/47] fix: likelihood and forecasts of models without ARMA
 terms

---
 src/emle.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index 08560f4..fb5ee7d 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -802,6 +802,7 @@ void karma(int ip,int iq,double *phi,double *theta,double *A,double *P,double*V,
 int forkal(int ip,int iq,int id,double *phi,double*theta,double *delta,int N,double *W,double *resid,int il,double *Y,double *AMSE) {
 	int ifault,ir,np,k,nrbar,ird,irz;
 	double *A,*P,*V,*store,*xrow;
+	double phi0 = 0.0;
 	double zero, one, two,AA,del,sumlog,ssq,sigma,A1,dt,phij,phijdt,phii,AMS;
 	int i,  j, ll, nt, nj, idk, iid,iupd,nit,iter,ind,irj;
 	int ir2, ir1, id2r, id2r1, id1,idd1,idd2,i45,idrr1,iddr,jkl,jkl1,id2r2,ibc,l,iri1,jj;
@@ -816,6 +817,12 @@ C     Auxiliary routines required: KARMA & STARMA from AS 154 and
 C     routines called by them: INCLU2 from ASR 17 (a slight variant on
 C     AS 75, and REGRES from AS 75.
 C*/
+	if (ip == 0 && iq == 0) {
+		// The recursions need one coefficient. White noise is an AR(1) process with phi = 0
+		ip = 1;
+		phi = &phi0;
+	}
+
 	ir = iq + 1;
 
 	if (ir < ip) {
@@ -1418,7 +1425,7 @@ double fas154(double *b,int pq,void *params) {
 
 	iupd = 0;
 
-	if (ip == 1 && iq == 0) {
+	if ((ip == 1 && iq == 0) || (ip == 0 && iq == 0)) {
 		*V = 1.0;
 		*A = 0.0;
 		*P = 1.0 / (1.0 - phi[0] * phi[0]);
@@ -2661,7 +2668,7 @@ double fas154_seas(double *b, int pq, void *params) {
 	iupd = 0;
 	//mdisplay(b, 1, pq);
 
-	if (ip == 1 && iq == 0) {
+	if ((ip == 1 && iq == 0) || (ip == 0 && iq == 0)) {
 		*V = 1.0;
 		*A = 0.0;
 		*P = 1.0 / (1.0 - phi[0] * phi[0]);
-- 
2.43.0


From df532f7db1703bee3b3b2d7d4d0936ad9d0f5deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:11 +0000
Subject: [PATCH 11/47] fix: forecasts read past the residuals of differenced
 models

---
 src/ctsa.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index adb666d..9bd309a 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -2232,7 +2232,7 @@ void arima_predict(arima_object obj,double *inp, int L,double *xpred,double *ams
 		if (d == 0) {
 			W[i] -= wmean;
 		}
-		resid[i] = obj->res[i];
+		resid[i] = (i < obj->Nused) ? obj->res[i] : 0.0;
 	}
 	for (i = 0; i < ir; ++i) {
 		phi[i] = theta[i] = 0.0;
@@ -2855,7 +2855,7 @@ void sarima_predict(sarima_object obj, double *inp, int L, double *xpred, double
 		if (d == 0 && D == 0) {
 			W[i] -= wmean;
 		}
-		resid[i] = obj->res[i];
+		resid[i] = (i < obj->Nused) ? obj->res[i] : 0.0;
 	}
 	for (i = 0; i < ir; ++i) {
 		phi[i] = theta[i] = 0.0;
@@ -2962,7 +2962,7 @@ void sarimax_predict(sarimax_object obj, double *inp, double *xreg, int L,double
 				W[i] -= obj->exog[j] * xreg[j*N+i];
 			}
 		}
-		resid[i] = obj->res[i];
+		resid[i] = (i < obj->Nused) ? obj->res[i] : 0.0;
 	}
 	for (i = 0; i < ir; ++i) {
 		phi[i] = theta[i] = 0.0;
@@ -3080,7 +3080,7 @@ void auto_arima_predict(auto_arima_object obj, double *inp, double *xreg, int L,
 				W[i] -= obj->exog[j] * xreg[(j-diter)*N+i];
 			}
 		}
-		resid[i] = obj->res[i];
+		resid[i] = (i < obj->Nused) ? obj->res[i] : 0.0;
 	}
 	for (i = 0; i < ir; ++i) {
 		phi[i] = theta[i] = 0.0;
@@ -3203,7 +3203,7 @@ void sarimax_wrapper_predict(sarimax_wrapper_object obj, double *inp, double *xr
 				W[i] -= obj->sarimax->exog[j] * xreg[(j-diter)*N+i];
 			}
 		}
-		resid[i] = obj->sarimax->res[i];
+		resid[i] = (i < obj->sarimax->Nused) ? obj->sarimax->res[i] : 0.0;
 	}
 	for (i = 0; i < ir; ++i) {
 		phi[i] = theta[i] = 0.0;
-- 
2.43.0


From 541046b31a0551629eada1ff2c792c83a21d0d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:28 +0000
Subject: [PATCH 12/47] fix: model objects start with defined residuals,
 covariance and statistics

---
 src/ctsa.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 9bd309a..4e36226 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -31,7 +31,7 @@ arima_object arima_init(int p, int d, int q, int N) {
 	obj->retval = 0;
 	obj->cssml = 1;
 
-	for (i = 0; i < p + q; ++i) {
+	for (i = 0; i < p + q + N - d + (p + q + M)*(p + q + M); ++i) {
 		obj->params[i] = 0.0;
 	}
 	obj->phi = &obj->params[0];
@@ -43,6 +43,8 @@ arima_object arima_init(int p, int d, int q, int N) {
 	obj->optmethod = 5; // Default Method is 5
 	obj->mean = 0.0;
 	obj->var = 1.0;
+	obj->loglik = 0.0;
+	obj->aic = 0.0;
 	obj->lvcov = (p + q + M)*(p + q + M);
 	obj->ncoeff = p + q + M;
 
@@ -85,7 +87,7 @@ sarima_object sarima_init(int p, int d, int q,int s, int P,int D,int Q, int N) {
 	obj->retval = 0;
 	obj->cssml = 1;
 
-	for (i = 0; i < p + q+P+Q; ++i) {
+	for (i = 0; i < p + q + P + Q + N - d - s*D + (p + q + P + Q + M)*(p + q + P + Q + M); ++i) {
 		obj->params[i] = 0.0;
 	}
 	obj->phi = &obj->params[0];
@@ -99,6 +101,8 @@ sarima_object sarima_init(int p, int d, int q,int s, int P,int D,int Q, int N) {
 	obj->optmethod = 5; // Default Method is 5
 	obj->mean = 0.0;
 	obj->var = 1.0;
+	obj->loglik = 0.0;
+	obj->aic = 0.0;
 	obj->lvcov = (p + q + P + Q + M)*(p + q + P + Q + M);
 	obj->ncoeff = p + q + P + Q + M;
 
@@ -135,11 +139,12 @@ ar_object ar_init(int method, int N) {
 	obj->retval = 0;
 	obj->method = method;
 
-	for (i = 0; i < p; ++i) {
+	for (i = 0; i < p + N; ++i) {
 		obj->params[i] = 0.0;
 	}
 	obj->phi = &obj->params[0];
 	obj->res = &obj->params[p];
+	obj->aic = 0.0;
 
 	obj->optmethod = 5;// Default Method is 5
 	obj->mean = 0.0;
@@ -220,6 +225,8 @@ sarimax_object sarimax_init(int p, int d, int q,int P, int D, int Q,int s, int r
 	obj->optmethod = 5; // Default Method is 5
 	obj->mean = 0.0;
 	obj->var = 1.0;
+	obj->loglik = 0.0;
+	obj->aic = 0.0;
 	obj->lvcov = (p + q + P + Q + ncxreg )*(p + q + P + Q + ncxreg );
 	obj->ncoeff = p + q + P + Q + ncxreg ;
 
@@ -322,6 +329,8 @@ auto_arima_object auto_arima_init(int *pdqmax,int *PDQmax,int s, int r, int N) {
 	
 	obj->p = obj->d = obj->q = obj->P = obj->D = obj->Q = 0;
 	obj->aic = obj->bic = obj->aicc = 0;
+	obj->loglik = obj->sigma2 = 0.0;
+	obj->Nused = N;
 
 
 	return obj;
-- 
2.43.0


From ced15e66f1ae544c2d70cf4a6958acef63d55af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:31 +0000
Subject: [PATCH 13/47] fix: ar_exec publishes status and residuals of the
 Yule-Walker and Burg fits

---
 src/ctsa.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 4e36226..38f9322 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -2173,7 +2173,8 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 
 void ar_exec(ar_object obj, double *inp) {
 	int p, N;
-	double loglik;
+	int i, j;
+	double loglik, lvar;
 	double *hess;
 	N = obj->N;
 
@@ -2200,7 +2201,19 @@ void ar_exec(ar_object obj, double *inp) {
 	}
 
 	obj->order = obj->p;
+	obj->res = obj->params + p;
 
+	if (obj->method == 0 || obj->method == 1) {
+		for (i = 0; i < N; ++i) {
+			obj->res[i] = inp[i] - obj->mean;
+			for (j = 0; j < p && j < i; ++j) {
+				obj->res[i] -= obj->params[j] * (inp[i - j - 1] - obj->mean);
+			}
+		}
+		lvar = log(obj->var);
+		obj->aic = N * lvar + 2.0 * (p + 1);
+		obj->retval = (lvar - lvar == 0.0) ? 1 : 15;
+	}
 
 }
 
-- 
2.43.0


From a40e069b8abd49b09c5baf99ee0c9fa377776375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:16 +0000
Subject: [PATCH 14/47] fix: seasonal and CSS fits publish their residuals

---
 src/ctsa.c |  6 +++---
 src/emle.c | 19 ++++++++++++++-----
 src/emle.h |  6 +++---
 3 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 38f9322..7a4dce2 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -405,7 +405,7 @@ void sarimax_exec(sarimax_object obj, double *inp,double *xreg)  {
 		obj->aic = -2.0 * obj->loglik + 2.0 * (obj->p + obj->q + obj->P + obj->Q + obj->M) + 2.0;
 	} else if (obj->method == 2) {
 		obj->retval = cssx(inp, obj->N, xreg, obj->optmethod, obj->p, obj->d, obj->q, obj->s, obj->P, obj->D, obj->Q, obj->params, obj->params + p, obj->params + p + q, 
-			obj->params + p + q + P,obj->params + p + q + P + Q, obj->r, &obj->mean, &obj->var,&obj->loglik, obj->params + p + q + P + Q + M + N - d - s*D,obj->start,
+			obj->params + p + q + P,obj->params + p + q + P + Q, obj->r, &obj->mean, &obj->var,obj->params + p + q + P + Q + M,&obj->loglik, obj->params + p + q + P + Q + M + N - d - s*D,obj->start,
 			obj->imean);
 		//mdisplay(obj->vcov,p+q+P+Q+M,p+q+P+Q+M);
 		obj->loglik = -0.5 * (obj->Nused * (2 * obj->loglik + 1.0 + log(2 * 3.14159)));
@@ -551,13 +551,13 @@ void sarima_exec(sarima_object obj, double *inp) {
 
 	if (obj->method == 0) {
 		obj->retval = as154_seas(inp, obj->N, obj->optmethod, obj->p, obj->d, obj->q, obj->s, obj->P, obj->D, obj->Q, obj->params, obj->params + p, obj->params + p + q, 
-			obj->params + p + q + P, &obj->mean, &obj->var, &obj->loglik, obj->params + p + q + P + Q + N - d - s*D,obj->cssml);
+			obj->params + p + q + P, &obj->mean, &obj->var, obj->params + p + q + P + Q, &obj->loglik, obj->params + p + q + P + Q + N - d - s*D,obj->cssml);
 		obj->loglik = -0.5 * (obj->Nused * (2 * obj->loglik + 1.0 + log(2 * 3.14159)));
 		obj->aic = -2.0 * obj->loglik + 2.0 * (obj->p + obj->q + obj->P + obj->Q + obj->M) + 2.0;
 	}
 	else if (obj->method == 1) {
 		obj->retval = css_seas(inp, obj->N, obj->optmethod, obj->p, obj->d, obj->q, obj->s, obj->P, obj->D, obj->Q, obj->params, obj->params + p, obj->params + p + q,
-			obj->params + p + q + P, &obj->mean, &obj->var, &obj->loglik, obj->params + p + q + P + Q + N - d - s*D);
+			obj->params + p + q + P, &obj->mean, &obj->var, obj->params + p + q + P + Q, &obj->loglik, obj->params + p + q + P + Q + N - d - s*D);
 		obj->loglik = -0.5 * (obj->Nused * (2 * obj->loglik + 1.0 + log(2 * 3.14159)));
 	}
 	else if (obj->method == 2) {
diff --git a/src/emle.c b/src/emle.c
index fb5ee7d..dc8489d 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1651,7 +1651,7 @@ int as154x(double *inp, int N, double *xreg, int optmethod, int p, int d, int q,
 	nd = d + D;
 
 	if (cssml == 1) {
-		ERR = cssx(inp, N, xreg, optmethod, p, d, q, s, P, D, Q, phi, theta, PHI, THETA,exog,r, wmean, var, loglik, hess,start,imean);
+		ERR = cssx(inp, N, xreg, optmethod, p, d, q, s, P, D, Q, phi, theta, PHI, THETA,exog,r, wmean, var, resid, loglik, hess,start,imean);
 
 		if ( ERR != 1) return ERR;
 
@@ -2042,7 +2042,7 @@ double fcss_seas(double *b, int pq, void *params) {
 }
 
 int css_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int P, int D, int Q,
-	double *phi, double *theta, double *PHI, double *THETA, double *wmean, double *var,double *loglik,double *hess) {
+	double *phi, double *theta, double *PHI, double *THETA, double *wmean, double *var,double *resid,double *loglik,double *hess) {
 	int i, pq, retval, length, offset,ret;
 	double *b, *tf, *x, *inp2,*dx,*thess;
 	int *ipiv;
@@ -2182,6 +2182,9 @@ int css_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int
 	wmean += (obj->x[N + i] * obj->x[N + i]);
 	}*/
 
+	for (i = 0; i < N; ++i) {
+		resid[i] = obj->x[offset + N + i];
+	}
 	*var = (obj->ssq) / (double)N;
 	*loglik = obj->loglik;
 	//printf("MEAN %g \n", mean(obj->x+N,N));
@@ -2316,7 +2319,7 @@ double fcssx(double *b, int pq, void *params) {
 }
 
 int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, int s, int P, int D, int Q,
-	double *phi, double *theta, double *PHI, double *THETA,  double *exog, int r, double *wmean, double *var,double *loglik,double *hess,int start,int imean) {
+	double *phi, double *theta, double *PHI, double *THETA,  double *exog, int r, double *wmean, double *var,double *resid,double *loglik,double *hess,int start,int imean) {
 	int i, pq, retval, length, offset,ret,nd,ncxreg,N1,rnk,orig,ERR;
 	double *b, *tf, *x, *inp2,*dx,*thess,*x0,*XX,*U,*V,*SIG,*coeff,*sigma,*varcovar,*res;
 	int *ipiv;
@@ -2574,6 +2577,9 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 	wmean += (obj->x[N + i] * obj->x[N + i]);
 	}*/
 
+	for (i = 0; i < N; ++i) {
+		resid[i] = obj->x[offset + N + i];
+	}
 	*var = (obj->ssq) / (double) obj->Nmncond;
 	//*var = (obj->ssq) / (double) N;
 	*loglik = obj->loglik;
@@ -2698,7 +2704,7 @@ double fas154_seas(double *b, int pq, void *params) {
 }
 
 int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int P, int D, int Q,double *phi, double *theta, 
-	double *PHI, double *THETA, double *wmean,double *var,double *loglik,double *hess,int cssml) {
+	double *PHI, double *THETA, double *wmean,double *var,double *resid,double *loglik,double *hess,int cssml) {
 	int i, pq, retval, length, offset,ret,nd,rp,ERR;
 	double *b, *tf, *x,*inp2,*dx,*thess,*res,*varcovar;
 	int *ipiv;
@@ -2717,7 +2723,7 @@ int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, in
 	sigma = 1.0;
 
 	if (cssml == 1) {
-		css_seas(inp, N, optmethod, p, d, q, s, P, D, Q, phi, theta, PHI, THETA, wmean, var, loglik, hess);
+		css_seas(inp, N, optmethod, p, d, q, s, P, D, Q, phi, theta, PHI, THETA, wmean, var, resid, loglik, hess);
 
 		ERR = checkroots_cerr(phi, &p, theta, &q, PHI, &P, THETA, &Q);
 		if (ERR == 10 || ERR == 12) {
@@ -2893,6 +2899,9 @@ int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, in
 		*wmean = 0.0;
 	}
 
+	for (i = 0; i < N; ++i) {
+		resid[i] = obj->x[offset + N + i];
+	}
 	*var = (obj->ssq) / (double) N;
 	*loglik = obj->loglik;
 	//printf("MEAN %g \n", mean(obj->x+N,N));
diff --git a/src/emle.h b/src/emle.h
index 9f9d2f3..4d114a0 100644
--- a/src/emle.h
+++ b/src/emle.h
@@ -174,12 +174,12 @@ int css(double *inp, int N, int optmethod, int p, int d, int q, double *phi, dou
 double fcss_seas(double *b, int pq, void *params);
 
 int css_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int P, int D, int Q,
-	double *phi, double *theta, double *PHI, double *THETA, double *wmean, double *var,double *loglik,double *hess);
+	double *phi, double *theta, double *PHI, double *THETA, double *wmean, double *var,double *resid,double *loglik,double *hess);
 
 double fcssx(double *b, int pq, void *params);
 
 int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, int s, int P, int D, int Q,
-	double *phi, double *theta, double *PHI, double *THETA,  double *exog, int r, double *wmean, double *var,double *loglik,double *hess,int start,int imean);
+	double *phi, double *theta, double *PHI, double *THETA,  double *exog, int r, double *wmean, double *var,double *resid,double *loglik,double *hess,int start,int imean);
 
 double fas154(double *x, int N, void *params);
 
@@ -195,7 +195,7 @@ double fas154_seas(double *b, int pq, void *params);
 void checkroots(double *phi, int *p, double *theta, int *q, double *PHI, int *P, double *THETA, int *Q);
 
 int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int P, int D, int Q,double *phi, double *theta, 
-	double *PHI, double *THETA, double *wmean, double *var, double *loglik, double *hess, int cssml);
+	double *PHI, double *THETA, double *wmean, double *var, double *resid, double *loglik, double *hess, int cssml);
 
 int flikam(double *P, int MP, double *Q, int MQ, double *W, double *E, int N, double *ssq, double *fact, double *VW, double *VL, int MRP1, double *VK, int MR, double TOLER);
 
-- 
2.43.0


From 5dbdff682854cb1d791d8d61efc1b9cbdc66f05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:20 +0000
Subject: [PATCH 15/47] fix: collinearity test reads the regressors with their
 real shape

---
 src/ctsa.c | 2 +-
 src/emle.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 7a4dce2..608bd4d 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -1196,7 +1196,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 	if (xreg) {
 		// Collinearity check
 
-		rnk = rank(xreg,N,r);
+		rnk = rank(xreg,r,N);
 
 		if (rnk < r) {
 			free(xx);
diff --git a/src/emle.c b/src/emle.c
index dc8489d..5b80258 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1730,7 +1730,7 @@ int as154x(double *inp, int N, double *xreg, int optmethod, int p, int d, int q,
 			memcpy(XX,x0,sizeof(double)*N*ncxreg);
 		}
 
-		rnk = rank(XX,N,ncxreg);
+		rnk = rank(XX,ncxreg,N);
 
 		if (rnk < ncxreg) {
 			ERR = 7;
@@ -2413,7 +2413,7 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 			memcpy(XX,x0,sizeof(double)*N*ncxreg);
 		}
 
-		rnk = rank(XX,N,ncxreg);
+		rnk = rank(XX,ncxreg,N);
 
 		if (rnk < ncxreg) {
 			ERR = 7;
-- 
2.43.0


From 1b56e414b17a9c8c8f3e4f1ba0935d4dbbc84b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:23 +0000
Subject: [PATCH 16/47] fix: sarimax_wrapper and myarima define drift, method
 and regressors on every path

---
 src/ctsa.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 608bd4d..fd42d44 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -581,6 +581,7 @@ sarimax_wrapper_object sarimax_wrapper(sarimax_wrapper_object model,double *y, i
 	x = (double*) malloc(sizeof(double)*N);
 	origx = (double*) malloc(sizeof(double)*N);
 	obj = (sarimax_wrapper_object) malloc (sizeof(struct sarimax_wrapper_set));
+	obj->lambda = (lambda != NULL) ? *lambda : 1.0;
 
 	memcpy(x,y,sizeof(double)*N);
 	memcpy(origx,y,sizeof(double)*N);
@@ -615,23 +616,23 @@ sarimax_wrapper_object sarimax_wrapper(sarimax_wrapper_object model,double *y, i
 
 		//printf("drift %d \n",drift);
 
-		rr = r;
-
+		rr = (xreg == NULL) ? 0 : r;
+		obj->idrift = drift;
 		
 		if (drift == 1) {
-			obj->idrift = 1;
 			rr++;
 			xreg2 = (double*)malloc(sizeof(double)*N*rr);
 			for(i = 0; i < N;++i) {
 				xreg2[i] = (double) (i+1);
 			}
-			memcpy(xreg2+N,xreg,sizeof(double)*N*(rr-1));
+			if (rr > 1) memcpy(xreg2+N,xreg,sizeof(double)*N*(rr-1));
 		} else {
 			xreg2 = (double*)malloc(sizeof(double)*N*rr);
-			memcpy(xreg2,xreg,sizeof(double)*N*rr);
+			if (rr > 0) memcpy(xreg2,xreg,sizeof(double)*N*rr);
 		}
 		
 		obj->sarimax = sarimax_init(p,d,q,P,D,Q,s,rr,mean,N);
+		sarimax_setMethod(obj->sarimax,method);
 
 		sarimax_exec(obj->sarimax,x,xreg2);
 		obj->aic = obj->sarimax->aic;
@@ -679,6 +680,8 @@ myarima_object myarima(double *x, int N, int *order, int *seasonal, int constant
 	fit = (myarima_object) malloc (sizeof(struct myarima_set));
 	
 	fit->ic = fit->aic = fit->bic = fit->aicc = DBL_MAX;
+	fit->sigma2 = 0.0;
+	fit->idrift = 0;
 
 	tol = 1e-08;
 
@@ -728,17 +731,19 @@ myarima_object myarima(double *x, int N, int *order, int *seasonal, int constant
 		rmethod = *method;
 	}
 
-	rr = r;
+	rr = (xreg == NULL) ? 0 : r;
 
 	if (diffs == 1 && constant == 1) {
 		imean = 1;
+		fit->idrift = 1;
 		rr++;
 		xreg2 = (double*)malloc(sizeof(double)*N*rr);
 		for(i = 0; i < N;++i) {
 			xreg2[i] = (double) (i+1);
 		}
-		memcpy(xreg2+N,xreg,sizeof(double)*N*(rr-1));
+		if (rr > 1) memcpy(xreg2+N,xreg,sizeof(double)*N*(rr-1));
 		fit->sarimax = sarimax_init(p,d,q,P,D,Q,s,rr,imean,N);
+		sarimax_setMethod(fit->sarimax,rmethod);
 		sarimax_exec(fit->sarimax,x,xreg2);
 		free(xreg2);
 		//sarimax_summary(fit->sarimax);
-- 
2.43.0


From ea63132926eca056ccf3dc1eca49078d08461218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:58 +0000
Subject: [PATCH 17/47] fix: CSS and Box-Jenkins fits do not keep the criteria
 of an earlier fit

---
 src/ctsa.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ctsa.c b/src/ctsa.c
index fd42d44..48a2997 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -362,8 +362,10 @@ void arima_exec(arima_object obj, double *inp) {
 		obj->retval = css(inp, obj->N, obj->optmethod, obj->p, obj->d, obj->q, obj->params, obj->params + p, &obj->mean, &obj->var, obj->params + p + q, &obj->loglik,
 			obj->params + p + q + N - d);
 		obj->loglik = -0.5 * (obj->Nused * (2 * obj->loglik + 1.0 + log(2 * 3.14159)));
+		obj->aic = 0.0;
 	}
 	else if (obj->method == 2) {
+		obj->loglik = obj->aic = 0.0;
 		eps = macheps();
 		obj->retval = nlalsm(inp, obj->N, obj->p, obj->d, obj->q, obj->params, obj->params + p, obj->M, &obj->mean, &obj->var, eps, obj->params + p + q + N - d, obj->params + p + q);
 	}
@@ -409,6 +411,7 @@ void sarimax_exec(sarimax_object obj, double *inp,double *xreg)  {
 			obj->imean);
 		//mdisplay(obj->vcov,p+q+P+Q+M,p+q+P+Q+M);
 		obj->loglik = -0.5 * (obj->Nused * (2 * obj->loglik + 1.0 + log(2 * 3.14159)));
+		obj->aic = 0.0;
 	} else {
 		printf("Only three methods are supported : 0 , 1 and 2 , where 0 is CSS-MLE ,1 is MLE and 2 is CSS \n");
 		exit(-1);
@@ -559,8 +562,10 @@ void sarima_exec(sarima_object obj, double *inp) {
 		obj->retval = css_seas(inp, obj->N, obj->optmethod, obj->p, obj->d, obj->q, obj->s, obj->P, obj->D, obj->Q, obj->params, obj->params + p, obj->params + p + q,
 			obj->params + p + q + P, &obj->mean, &obj->var, obj->params + p + q + P + Q, &obj->loglik, obj->params + p + q + P + Q + N - d - s*D);
 		obj->loglik = -0.5 * (obj->Nused * (2 * obj->loglik + 1.0 + log(2 * 3.14159)));
+		obj->aic = 0.0;
 	}
 	else if (obj->method == 2) {
+		obj->loglik = obj->aic = 0.0;
 		eps = macheps();
 		obj->retval = nlalsms(inp, obj->N, obj->p, obj->d, obj->q, obj->params, obj->params + p, obj->s, obj->P, obj->D, obj->Q, obj->params + p + q, obj->params + p + q + P, obj->M, &obj->mean, &obj->var, eps,
 			obj->params + p + q + P + Q + N - d - s*D, obj->params + p + q + P + Q);
-- 
2.43.0


From f2349d2ea69c95f71983879c8b640bd74a166022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:18 +0000
Subject: [PATCH 18/47] fix: auto_arima_exec keeps the configuration apart from
 the selected model

---
 header/ctsa.h |  1 +
 src/ctsa.c    | 44 +++++++++++++++++++++++++++-----------------
 src/ctsa.h    |  1 +
 3 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/header/ctsa.h b/header/ctsa.h
index 58fa9f2..959f600 100644
--- a/header/ctsa.h
+++ b/header/ctsa.h
@@ -76,6 +76,7 @@ struct auto_arima_set{
 	double aic;
 	double bic;
 	double aicc;
+	int drift;// 1 if the selected model has a drift term
 	double params[0];
 };
 
diff --git a/src/ctsa.c b/src/ctsa.c
index 48a2997..cc08f30 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -330,6 +330,7 @@ auto_arima_object auto_arima_init(int *pdqmax,int *PDQmax,int s, int r, int N) {
 	obj->p = obj->d = obj->q = obj->P = obj->D = obj->Q = 0;
 	obj->aic = obj->bic = obj->aicc = 0;
 	obj->loglik = obj->sigma2 = 0.0;
+	obj->drift = 0;
 	obj->Nused = N;
 
 
@@ -420,8 +421,8 @@ void sarimax_exec(sarimax_object obj, double *inp,double *xreg)  {
 
 void auto_arima_exec(auto_arima_object obj, double *inp,double *xreg) {
 	aa_ret_object fit;
-	int p,d,q,P,D,Q,s,r,N,M;
-	int i,imean,idrift, retval, iter;
+	int p,d,q,P,D,Q,s,N,M;
+	int i, retval, iter;
 	int order[3];
 	int seasonal[3];
 	int start[4];
@@ -441,9 +442,6 @@ void auto_arima_exec(auto_arima_object obj, double *inp,double *xreg) {
 	 &obj->stepwise,&obj->num_models,&obj->approximation,&obj->method,xreg,obj->r,obj->test,obj->type, &obj->alpha_test,obj->seas, &obj->alpha_seas,
 	 &obj->idrift, &obj->imean,obj->verbose, NULL);
 
-	imean = obj->imean;
-	idrift = obj->idrift;
-
 	if (fit->otype == 2) {
 		p = fit->Arima->sarimax->p;
 		d = fit->Arima->sarimax->d;
@@ -459,7 +457,7 @@ void auto_arima_exec(auto_arima_object obj, double *inp,double *xreg) {
 		obj->mean = fit->Arima->sarimax->mean;
 	    obj->var = fit->Arima->sarimax->var;
 		obj->loglik = fit->Arima->sarimax->loglik;
-		obj->idrift = fit->Arima->idrift;
+		obj->drift = fit->Arima->idrift;
 
 		iter = (p + q + P + Q + M + N - d - s*D) + (p + q + P + Q + M )*(p + q + P + Q + M );
 
@@ -488,7 +486,7 @@ void auto_arima_exec(auto_arima_object obj, double *inp,double *xreg) {
 		obj->mean = fit->myarima->sarimax->mean;
 	    obj->var = fit->myarima->sarimax->var;
 		obj->loglik = fit->myarima->sarimax->loglik;
-		obj->idrift = fit->myarima->idrift;
+		obj->drift = fit->myarima->idrift;
 
 		iter = (p + q + P + Q + M + N - d - s*D) + (p + q + P + Q + M )*(p + q + P + Q + M );
 
@@ -500,6 +498,18 @@ void auto_arima_exec(auto_arima_object obj, double *inp,double *xreg) {
 		obj->bic = fit->myarima->bic;
 		obj->aicc = fit->myarima->aicc;
 		obj->sigma2 = fit->myarima->sigma2;
+	} else {
+		// no model could be selected
+		p = d = q = P = D = Q = s = M = 0;
+		N = obj->N;
+		retval = 0;
+		obj->mean = 0.0;
+		obj->var = 1.0;
+		obj->loglik = obj->sigma2 = obj->aic = obj->bic = obj->aicc = 0.0;
+		obj->drift = 0;
+		for(i = 0; i < N; ++i) {
+			obj->params[i] = 0.0;
+		}
 	}
 
 
@@ -507,7 +517,6 @@ void auto_arima_exec(auto_arima_object obj, double *inp,double *xreg) {
 	obj->d = d;
 	obj->q = q;
 	obj->N = N;
-	obj->s = s;
 	obj->P = P;
 	obj->D = D;
 	obj->Q = Q;
@@ -3072,7 +3081,7 @@ void auto_arima_predict(auto_arima_object obj, double *inp, double *xreg, int L,
 
 	diter = 0;
 
-	if (obj->idrift == 1) {
+	if (obj->drift == 1) {
 		diter = 1;		
 	}
 
@@ -3104,11 +3113,11 @@ void auto_arima_predict(auto_arima_object obj, double *inp, double *xreg, int L,
 		if (d == 0 && D == 0) {
 			W[i] -= wmean;
 		}
-		if (obj->idrift == 1) {
+		if (obj->drift == 1) {
 			W[i] -= obj->exog[0]*(i+1);
 		}
 		if (obj->r > 0) {
-			for(j = diter; j < obj->r;++j) {
+			for(j = diter; j < obj->r + diter;++j) {
 				W[i] -= obj->exog[j] * xreg[(j-diter)*N+i];
 			}
 		}
@@ -3144,10 +3153,10 @@ void auto_arima_predict(auto_arima_object obj, double *inp, double *xreg, int L,
 
 	for (i = 0; i < L; ++i) {
 		xpred[i] += wmean;
-		if (obj->idrift == 1) {
+		if (obj->drift == 1) {
 			xpred[i] += obj->exog[0]*(i+1+N);
 		}
-		for(j = diter; j < obj->r;++j) {
+		for(j = diter; j < obj->r + diter;++j) {
 			xpred[i] += obj->exog[j] * newxreg[(j - diter)*L+i];
 		}
 	}
@@ -3700,7 +3709,8 @@ void sarimax_summary(sarimax_object obj) {
 void auto_arima_summary(auto_arima_object obj) {
 	int i, pq,t,ncxreg,mean,drift;
 	pq = obj->p + obj->q + obj->P + obj->Q + obj->M;
-	mean = obj->M - obj->r;
+	mean = obj->M - obj->r - obj->drift;
+	if (mean < 0) mean = 0;
 
 	if (obj->method == 0 || obj->method == 1) {
 		printf("\n\nExit Status \n");
@@ -3762,14 +3772,14 @@ void auto_arima_summary(auto_arima_object obj) {
 		printf("%-17s%-20g \n", "MEAN", obj->mean);
 	}
 	ncxreg = 0;
-	if (obj->idrift == 1) {
+	if (obj->drift == 1) {
 		printf("%-17s%-20g%-20g \n", "TREND", obj->exog[0], sqrt(obj->vcov[t + pq * t]));
 		t++;
 		ncxreg++;
 	} else {
 		printf("%-17s%-20g \n", "TREND", 0.0);
 	}
-	for(i = ncxreg; i < obj->r; ++i) {
+	for(i = ncxreg; i < obj->M - mean; ++i) {
 		printf("%-17s%-20g%-20g \n", "EXOG", obj->exog[i], sqrt(obj->vcov[t + pq * t]));
 		t++;
 	}
@@ -4397,7 +4407,7 @@ void aa_ret_free(aa_ret_object object) {
 	// use proper free wrapers for given type 
 	if (object->otype == 1) {
 		myarima_free(object->myarima);
-	} else {
+	} else if (object->otype == 2) {
 		sarimax_wrapper_free(object->Arima);
 	}
 	free(object);
diff --git a/src/ctsa.h b/src/ctsa.h
index c485a9f..511eb5e 100644
--- a/src/ctsa.h
+++ b/src/ctsa.h
@@ -203,6 +203,7 @@ struct auto_arima_set{
 	double aic;
 	double bic;
 	double aicc;
+	int drift;// 1 if the selected model has a drift term
 	double params[];
 };
 
-- 
2.43.0


From efb6d2a1a941a7f1d7962e904b197599bab8f485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:09 +0000
Subject: [PATCH 19/47] fix: search_arima starts from a defined best model

---
 src/ctsa.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index cc08f30..bf47b16 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -941,7 +941,8 @@ myarima_object search_arima(double *x, int N,int d, int D, int p_max, int q_max,
 	int approximation, double *xreg, int r, double offset,int allowdrift, int allowmean,int verbose, int method) {
 
 	int idrift, imean, maxK, i, j, I, J,K;
-	double best_ic,bestK,iapprox;
+	int bestK, iapprox;
+	double best_ic;
 	myarima_object bestfit;
 	myarima_object fit;
 	int order[3] = {0,0,0};
@@ -962,6 +963,12 @@ myarima_object search_arima(double *x, int N,int d, int D, int p_max, int q_max,
 	//printf("d %d D %d p_max %d q_max %d P_max %d Q_max %d maxK %d \n",d,D,p_max,q_max,P_max,Q_max,maxK);
 
 	best_ic = DBL_MAX;
+	bestK = 0;
+	bestorder[1] = d;
+	if (D > 0) {
+		bestseasonal[1] = D;
+		bestseasonal[3] = s;
+	}
 
 	for(i = 0; i <= p_max; ++i) {
 		for(j = 0;j <= q_max;++j) {
-- 
2.43.0


From 4b771aa762c6db43d28b1d647bc951f4b0fb907b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:12 +0000
Subject: [PATCH 20/47] fix: automatic selection honours the seasonal,
 stationary, mean and drift settings

---
 src/ctsa.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index bf47b16..369fcad 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -1141,6 +1141,8 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 
 	if (seasonal == NULL) {
 		iseasonal = 1;
+	} else {
+		iseasonal = *seasonal;
 	}
 
 	if (stepwise == NULL) {
@@ -1180,7 +1182,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 
 	//mdisplay(x,1,N);
 
-	if (s <= 1) {
+	if (s <= 1 || !iseasonal) {
 		m = 1;
 	} else {
 		m = s;
@@ -1244,7 +1246,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 	D = DD == NULL ? -1 : *DD;
 
 	if (istationary) {
-		d = D = 0;
+		D = 0;
 	}
 
 	if (m == 1) {
@@ -1286,6 +1288,10 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 
 	d = dd == NULL ? -1 : *dd;
 
+	if (istationary) {
+		d = 0;
+	}
+
 	if (d == -1) {
 		d = ndiffs(dx,Nd,test_alpha,test,type,&d_max);
 
@@ -1312,7 +1318,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 		memcpy(diffdx,dx,sizeof(double)*Ndd);
 	}
 
-	if (Ndd == 0) {
+	if (Ndd <= 0) {
 		free(x);
 		free(xx);
 		free(dx);
@@ -1324,14 +1330,14 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 		printf("Warning. Data length is 0 after differencing. Exiting. \n");
 		return fit;
 	} else if (is_constant(diffdx,Ndd)) {
+		idrift = idrift && (d + D <= 1);
 		if (xreg == NULL) {
 			if (D > 0 && d == 0) {
 				seasonalorder[0] = seasonalorder[2] = 0;
 				seasonalorder[1] = D;
 				seasonalorder[3] = m;
 				order[0] = order[1] = order[2] = 0;
-				imean = 1;
-				idrift = 1;
+				idrift = idrift && (D == 1);
 				fit->Arima = sarimax_wrapper(NULL,x,N,order,seasonalorder,NULL,r,idrift,imean,NULL,biasadj,amethod);
 				fit->myarima = NULL;
 				fit->otype = 2;
@@ -1362,7 +1368,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 				seasonalorder[3] = 0;
 				order[0] = order[2] = 0;
 				order[1] = d;
-				idrift = 1;
+				idrift = idrift && (d == 1);
 				fit->Arima = sarimax_wrapper(NULL,x,N,order,seasonalorder,NULL,r,idrift,imean,NULL,biasadj,amethod);
 				fit->myarima = NULL;
 				fit->otype = 2;
@@ -1378,7 +1384,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 				seasonalorder[3] = m;
 				order[0] = order[2] = 0;
 				order[1] = d;
-				fit->Arima = sarimax_wrapper(NULL,x,N,order,seasonalorder,xreg,r,idrift,imean,NULL,biasadj,amethod);
+				fit->Arima = sarimax_wrapper(NULL,x,N,order,seasonalorder,xreg,r,idrift && (d + D == 1),imean,NULL,biasadj,amethod);
 				fit->myarima = NULL;
 				fit->otype = 2;
 			} else {
@@ -1387,7 +1393,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 				seasonalorder[3] = 0;
 				order[0] = order[2] = 0;
 				order[1] = d;
-				fit->Arima = sarimax_wrapper(NULL,x,N,order,seasonalorder,xreg,r,idrift,imean,NULL,biasadj,amethod);
+				fit->Arima = sarimax_wrapper(NULL,x,N,order,seasonalorder,xreg,r,idrift && (d + D == 1),imean,NULL,biasadj,amethod);
 				fit->myarima = NULL;
 				fit->otype = 2;
 			}
@@ -1446,8 +1452,6 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 		fit->otype = 1;
 		fit->Arima = NULL;
 
-		imean = 1;
-	
 		fit->myarima = search_arima(x,N,d,D,p_max,q_max,P_max,Q_max,Order_max,istationary,s,ic,iapprox,xreg,r,offset,idrift,imean,verbose,amethod);
 		free(x);
 		free(xx);
-- 
2.43.0


From 51d6ccd22dd986eb8cf483c2dc5a324e9b316e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:14 +0000
Subject: [PATCH 21/47] fix: automatic selection uses all regressors and
 releases the regression

---
 src/ctsa.c | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 369fcad..29594c2 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -1078,7 +1078,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 	int p_max,d_max,q_max,P_max, D_max,Q_max,p,q,P,Q,trace;
 	int p_start, q_start, P_start, Q_start,d,D,Nd,Ndd,amethod, iapprox,constant,Order_max;
 	int istationary, iseasonal, istepwise, models, idrift, imean, m, N3, N3m,rnk, i, is1,k;
-	double *x,*xx,*varcovar,*diffxreg,*dx,*diffdxreg,*diffdx,*results,*icvector;
+	double *x,*xx,*varcovar,*xreg1,*diffxreg,*dx,*diffdxreg,*diffdx,*results,*icvector;
 	reg_object reg;
 	sarimax_object approxfit;
 	myarima_object bestfit;
@@ -1176,6 +1176,11 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 	}
 
 
+	if (xreg == NULL || r <= 0) {
+		xreg = NULL;
+		r = 0;
+	}
+
 	x = (double*) malloc(sizeof(double)*N);
 
 	memcpy(x,y,sizeof(double)*N);
@@ -1233,13 +1238,25 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			exit(-1);
 		}
 
-		varcovar = (double*)malloc(sizeof(double)*r*r);
+		varcovar = (double*)malloc(sizeof(double)*(r+1)*(r+1));
+		xreg1 = (double*)malloc(sizeof(double)*N*(r+1));
+
+		for(i = 0; i < N;++i) {
+			xreg1[i] = 1.0;
+		}
+		memcpy(xreg1+N,xreg,sizeof(double)*N*r);
 
-		reg = reg_init(N,r);
+		if (rank(xreg1,r+1,N) == r+1) {
+			reg = reg_init(N,r+1);
+		} else {
+			reg = reg_init(N,r);
+			setIntercept(reg,0);
+		}
 
-		//setIntercept(reg,0);
 		regress(reg,xreg,x,xx,varcovar,0.95);
 
+		free_reg(reg);
+		free(xreg1);
 		free(varcovar);
 	}
 
@@ -1280,9 +1297,11 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 
 	if (xreg) {
 		if (D > 0) {
-			diffs(xreg,N,D,s,diffxreg);
+			for(i = 0; i < r;++i) {
+				diffs(xreg+i*N,N,D,s,diffxreg+i*Nd);
+			}
 		} else {
-			memcpy(diffxreg,xreg,N*r);
+			memcpy(diffxreg,xreg,sizeof(double)*N*r);
 		}
 	}
 
-- 
2.43.0


From d1ccf33735c0bd10302f98382353422d098d5b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:17 +0000
Subject: [PATCH 22/47] fix: automatic selection refits the model it selected

---
 src/ctsa.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 29594c2..93d71e4 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -1493,7 +1493,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 	P = P_start = (P_start < P_max) ? P_start : P_max;
 	Q = Q_start = (Q_start < Q_max) ? Q_start : Q_max;
 
-	results = (double*)calloc(8*models,sizeof(double));
+	results = (double*)calloc(8*((models > 5) ? models : 5),sizeof(double));
 
 	bestorder[0] = p;
 	bestorder[1] = d;
@@ -2139,8 +2139,8 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 	
 	}
 
-	k--;
-	if (k == models) {
+	if (k > models) {
+		k = models;
 		printf("Warning : Stepwise search was stopped early due to reaching the model number limit: %d \n",models);
 	}
 
@@ -2188,7 +2188,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 				best_ic = fit->myarima->ic;
 				memcpy(bestorder,order,sizeof(int)*3);
 				memcpy(bestseasonalorder,seasonalorder,sizeof(int)*4);
-				bestconstant = constant;
+				bestconstant = (int) results[icindex[i]*8 + 6];
 				free(icvector);
 				free(icindex);
 				myarima_free(fit->myarima);
@@ -2198,6 +2198,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 		}
 
 		if (iapprox != 0) {
+			myarima_free(fit->myarima);
 			free(icvector);
 			free(icindex);
 		}
@@ -2206,7 +2207,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 
 	// Refit The Best Model
 
-	fit->myarima = myarima(x,N,bestorder,bestseasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+	fit->myarima = myarima(x,N,bestorder,bestseasonalorder,bestconstant, ic, trace, iapprox, offset,xreg, r, NULL);
 
 	
 
-- 
2.43.0


From 673c57febc240a60823013d476fb17ac4b12c154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:33 +0000
Subject: [PATCH 23/47] fix: automatic selection uses the configured estimation
 method

---
 src/ctsa.c | 57 ++++++++++++++++++++++++++++--------------------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 93d71e4..001cee7 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -996,7 +996,7 @@ myarima_object search_arima(double *x, int N,int d, int D, int p_max, int q_max,
 								seasonal[3] = s;
 							}
 
-							fit = myarima(x,N,order,seasonal, K, ic, trace, approximation, offset,xreg, r, NULL);
+							fit = myarima(x,N,order,seasonal, K, ic, trace, approximation, offset,xreg, r, (method == 0) ? NULL : &method);
 							if (verbose == 1) {
 								printf("p: %d d: %d q: %d P: %d D: %d Q: %d Drift/Mean: %d ic: %g \n",fit->sarimax->p,d,fit->sarimax->q,fit->sarimax->P,D,fit->sarimax->Q,K,fit->ic);
 							}
@@ -1021,7 +1021,7 @@ myarima_object search_arima(double *x, int N,int d, int D, int p_max, int q_max,
 
 	//printf("best_ic %g \n",best_ic);
 
-	bestfit = myarima(x,N,bestorder,bestseasonal, bestK, ic, trace, approximation, offset,xreg, r, NULL);
+	bestfit = myarima(x,N,bestorder,bestseasonal, bestK, ic, trace, approximation, offset,xreg, r, (method == 0) ? NULL : &method);
 
 	if (approximation) {
 		if (bestfit->ic == DBL_MAX) {
@@ -1088,7 +1088,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 	int bestseasonalorder[4] = {0,0,0,0};
 	int biasadj = 0,bestconstant,startk,ntconstant;
 	double offset, best_ic;
-	int *icindex;
+	int *icindex, *pmethod;
 
 	fit = (aa_ret_object) malloc (sizeof(struct aa_ret_set));
 
@@ -1175,6 +1175,9 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 		amethod = *method;
 	}
 
+	// The default method follows the approximation setting
+	pmethod = (amethod == 0) ? NULL : &amethod;
+
 
 	if (xreg == NULL || r <= 0) {
 		xreg = NULL;
@@ -1506,7 +1509,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 	trace = 0; // Make it variable
 	bestconstant = constant;
 
-	bestfit = myarima(x,N,bestorder,bestseasonalorder,bestconstant, ic, trace, iapprox, offset,xreg, r, NULL);
+	bestfit = myarima(x,N,bestorder,bestseasonalorder,bestconstant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 	best_ic = bestfit->ic;
 
@@ -1525,7 +1528,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 	seasonalorder[2] = 0;
 	seasonalorder[3] = s;
 
-	fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+	fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 	set_results(results,2,0,d,0,0,D,0,constant,fit->myarima->ic);
 
@@ -1552,7 +1555,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 		seasonalorder[2] = 0;
 		seasonalorder[3] = s;
 
-		fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+		fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 		set_results(results,k+1,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1582,7 +1585,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 		seasonalorder[2] = (Q_max > 0) && (m > 1);
 		seasonalorder[3] = s;
 
-		fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+		fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 		set_results(results,k+1,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1611,7 +1614,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 		seasonalorder[2] = 0;
 		seasonalorder[3] = s;
 
-		fit->myarima = myarima(x,N,order,seasonalorder,0, ic, trace, iapprox, offset,xreg, r, NULL);
+		fit->myarima = myarima(x,N,order,seasonalorder,0, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 		set_results(results,k+1,0,d,0,0,D,0,0,fit->myarima->ic);
 
@@ -1644,7 +1647,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1673,7 +1676,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q-1;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1702,7 +1705,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1731,7 +1734,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q+1;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1760,7 +1763,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q-1;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1790,7 +1793,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q+1;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1820,7 +1823,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q-1;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1850,7 +1853,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q+1;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1882,7 +1885,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1911,7 +1914,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1940,7 +1943,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1969,7 +1972,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1998,7 +2001,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -2028,7 +2031,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -2058,7 +2061,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -2088,7 +2091,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -2120,7 +2123,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 				seasonalorder[2] = Q;
 				seasonalorder[3] = s;
 
-				fit->myarima = myarima(x,N,order,seasonalorder,ntconstant, ic, trace, iapprox, offset,xreg, r, NULL);
+				fit->myarima = myarima(x,N,order,seasonalorder,ntconstant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 				set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],ntconstant,fit->myarima->ic);
 
@@ -2182,7 +2185,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[1] = D;
 			seasonalorder[2] = results[icindex[i]*8 + 5];
 			seasonalorder[3] = s;
-			fit->myarima = myarima(x,N,order,seasonalorder,results[icindex[i]*8 + 6], ic, trace, 0, offset,xreg, r, NULL);
+			fit->myarima = myarima(x,N,order,seasonalorder,results[icindex[i]*8 + 6], ic, trace, 0, offset,xreg, r, pmethod);
 
 			if (fit->myarima->ic < DBL_MAX) {
 				best_ic = fit->myarima->ic;
@@ -2207,7 +2210,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 
 	// Refit The Best Model
 
-	fit->myarima = myarima(x,N,bestorder,bestseasonalorder,bestconstant, ic, trace, iapprox, offset,xreg, r, NULL);
+	fit->myarima = myarima(x,N,bestorder,bestseasonalorder,bestconstant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 	
 
-- 
2.43.0


From d6e105fb695b0830b472ecaa270fd2a6e3a36e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:17 +0000
Subject: [PATCH 24/47] fix: stl takes its trend window and outer iterations
 from the arguments, sorts robustness weights as doubles; supsmu windows stay
 inside short series

---
 src/seastest.c |  4 +++-
 src/stl.c      | 11 ++++++++++-
 src/talg.c     | 10 ++++++++++
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/seastest.c b/src/seastest.c
index 44153a0..cde771f 100644
--- a/src/seastest.c
+++ b/src/seastest.c
@@ -220,6 +220,8 @@ void stl(double *x,int N,int f, const char *s_window_type,int *s_window, int *s_
 
     if (t_window == NULL) {
         t_window_ = nextOdd(ceil( 1.5 * f / (1.0 - 1.5 / (double) s_window_)));
+    } else {
+        t_window_ = *t_window;
     }
 
     s_degree_ = (s_degree == NULL) ? 0 : *s_degree;
@@ -234,7 +236,7 @@ void stl(double *x,int N,int f, const char *s_window_type,int *s_window, int *s_
 
     robust_ = (robust == NULL) ? 0 : *robust;
     inner_ = (inner == NULL) ? (robust_ ? 1 : 2) : *inner;
-    outer_ = (inner == NULL) ? (robust_ ? 15 : 0) : *outer;
+    outer_ = (outer == NULL) ? (robust_ ? 15 : 0) : *outer;
 
     
     s_degree_ = degCheck(s_degree_);
diff --git a/src/stl.c b/src/stl.c
index af4d106..601e92f 100644
--- a/src/stl.c
+++ b/src/stl.c
@@ -451,6 +451,7 @@ int stlrwt_(double *y, int *n, double *fit, double *rw)
     int mid[2];
     double cmad;
 	int c__2 = 2;
+    int nan_ = 0;
 
 /* Robustness Weights */
 /* 	rw_i := B( |y_i - fit_i| / (6 M) ),   i = 1,2,...,n */
@@ -467,8 +468,16 @@ int stlrwt_(double *y, int *n, double *fit, double *rw)
     i__1 = *n;
     for (i__ = 1; i__ <= i__1; ++i__) {
 	rw[i__] = (d__1 = y[i__] - fit[i__], fabs(d__1));
+	nan_ |= rw[i__] != rw[i__];
 /* L7: */
     }
+    if (nan_) {
+/*     the partial sort needs ordered residuals */
+	for (i__ = 1; i__ <= i__1; ++i__) {
+	    rw[i__] = 1.0;
+	}
+	return 0;
+    }
     mid[0] = *n / 2 + 1;
     mid[1] = *n - mid[0] + 1;
     psort_(&rw[1], *n, mid, c__2);
@@ -712,7 +721,7 @@ int psort_(double *a, int n, int *ind, int ni)
     int i__, j, k, l, m, p;
     double t;
     int ij, il[16], jl, iu[16], ju;
-    int tt;
+    double tt;
     int indl[16], indu[16];
 
 
diff --git a/src/talg.c b/src/talg.c
index 7db9a90..51ed9e8 100644
--- a/src/talg.c
+++ b/src/talg.c
@@ -1254,7 +1254,13 @@ static int smooth_(int *n, double *x, double *y, double *w, double *span, int *i
     if (ibw < 2) {
 	ibw = 2;
     }
+    if (ibw > *n - 1) {
+	ibw = *n - 1;
+    }
     it = (ibw << 1) + 1;
+    if (it > *n) {
+	it = *n;
+    }
     i__1 = it;
     for (i__ = 1; i__ <= i__1; ++i__) {
 	j = i__;
@@ -1511,6 +1517,10 @@ static int supsmu_(int *n, double *x, double *y, double *w, int *iper, double *s
 L30:
     i__ = *n / 4;
     j = i__ * 3;
+    if (i__ < 1) {
+	i__ = 1;
+	j = 1;
+    }
     scale = x[j] - x[i__];
 L40:
     if (scale > 0.f) {
-- 
2.43.0


From 2d3bb494ce600e4f58b60870ab7131e0f5a35bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:56 +0000
Subject: [PATCH 25/47] fix: seasonality tests release their regressions, keep
 the caller's frequencies and never read before their buffers

---
 src/seastest.c | 54 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/src/seastest.c b/src/seastest.c
index cde771f..ea5ff0e 100644
--- a/src/seastest.c
+++ b/src/seastest.c
@@ -43,7 +43,7 @@ void decompose(double *x,int N, int f,double *filter, const char *type, double *
         filt = &filter[0];
     }
 
-    if (!(strcmp(type,"additive") || strcmp(type,"multiplicative"))) {
+    if (strcmp(type,"additive") && strcmp(type,"multiplicative")) {
         printf("Type takes only either additive or multiplicative values \n");
         exit(-1);
     }
@@ -94,7 +94,7 @@ void decompose(double *x,int N, int f,double *filter, const char *type, double *
         }
     }
     j = 0;
-    for( i = f*(batches-1); i < clen - f*(batches-1);++i) {
+    for( i = f*(batches-1); i < clen;++i) {
         seas[i] = seas[j];
         j++;
     }
@@ -455,6 +455,8 @@ reg_object fitOCSB(double *x, int N, int f, int lag, int mlags) {
 
     //mdisplay(ylag,ylrows,ylcols);
 
+    y2 = y;
+
     if (mlags > -1) {
         y2 = &y[mlags];
         Ny -= mlags;
@@ -626,7 +628,7 @@ void OCSBtest(double *x, int N, int f, int mlags, const char *method,double *sta
     int i, bestindex,allnans,maxlag;
     double *tval,*icvals;
     reg_object fit;
-    reg_object *list = (reg_object*)malloc(sizeof(reg_object)*mlags);
+    reg_object *list = (reg_object*)calloc(mlags,sizeof(reg_object));
     reg_object crit_reg = NULL;
 
     icvals = (double*) malloc(sizeof(double)*mlags);
@@ -668,16 +670,21 @@ void OCSBtest(double *x, int N, int f, int mlags, const char *method,double *sta
         }
     } */
 
-    fit = fitOCSB(x,N,f,maxlag,maxlag);
+    if (maxlag < 0) {
+        fit = crit_reg;
+    } else {
+        fit = fitOCSB(x,N,f,maxlag,maxlag);
 
-    //printf("\n\n%d\n\n",fit->rank);
+        //printf("\n\n%d\n\n",fit->rank);
 
-    if (fit->rank != fit->p && fit->rank == fit->rank) {
-        if (crit_reg == NULL) {
-            printf("Could not find a solution. Try a different method. \n");
-            exit(-1);
-        } else {
-            fit = crit_reg;
+        if (fit->rank != fit->p && fit->rank == fit->rank) {
+            if (crit_reg == NULL) {
+                printf("Could not find a solution. Try a different method. \n");
+                exit(-1);
+            } else {
+                free_reg(fit);
+                fit = crit_reg;
+            }
         }
     }
 
@@ -689,13 +696,17 @@ void OCSBtest(double *x, int N, int f, int mlags, const char *method,double *sta
 
     //mdisplay(tval,1,fit->p);
 
-    for(i = 0; i < mlags;++i) {
-		free_reg(list[i]);
-    }
-
     *critical = calcOCSBCritVal(f);
     *statistics = tval[fit->p-1];
 
+    for(i = 0; i < mlags;++i) {
+        if (list[i] != NULL) {
+            if (list[i] == fit) fit = NULL;
+            free_reg(list[i]);
+        }
+    }
+    if (fit != NULL) free_reg(fit);
+
     free(list);
     free(icvals);
     free(tval);
@@ -706,6 +717,7 @@ void SHtest(double *x, int N, int *f, int Nseas, double *season) {
     Seasonal Heuristic Test
     */
     int i,j,Niter;
+    int *freq;
     double **seasonal, *trend, *remainder, *vari;
     double vare,tmp1;
 
@@ -721,7 +733,15 @@ void SHtest(double *x, int N, int *f, int Nseas, double *season) {
     /// of Niter to mstl as mstl has potential of modifying Niter
     /// which affects freeing of seasonal double array below
     Niter = Nseas;
-    mstl(x, N,f,&Niter,NULL,NULL,NULL,seasonal,trend,remainder);
+    // mstl also rewrites the list of frequencies
+    freq = (int*)malloc(sizeof(int)*Nseas);
+    memcpy(freq,f,sizeof(int)*Nseas);
+    mstl(x, N,freq,&Niter,NULL,NULL,NULL,seasonal,trend,remainder);
+    free(freq);
+
+    for(j = Niter; j < Nseas; ++j) {
+        season[j] = 0.0;
+    }
 
     vare = var(remainder,N);
 
@@ -775,8 +795,6 @@ double* seasdummy(double *x, int N,int f,int *rows, int *cols) {
         }
     }
 
-    printf("PIVAL %g",PIVAL);
-
     //mdisplay(fmatrix,N,2*f);
 
     for(i = 0; i < N;++i) {
-- 
2.43.0


From 7468e0a3f18e24174904997ceecc8c813bde4cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:19 +0000
Subject: [PATCH 26/47] fix: spectral estimates release their transforms;
 differencing polynomials of order zero, transform gradients and predictarima
 stay defined

---
 src/pred.c     |  6 ++++--
 src/spectrum.c | 11 +++++++++--
 src/talg.c     |  8 ++++----
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/pred.c b/src/pred.c
index 61bae27..d1a9298 100644
--- a/src/pred.c
+++ b/src/pred.c
@@ -22,7 +22,7 @@ void predictarima(double *inp,int leninp,int p,int d, int q,double *phi, double
 	theta1 = (double*) malloc(sizeof(double) * (q+1));
 	delta = (double*) malloc(sizeof(double) * (d+1));
 	at = (double*) malloc(sizeof(double) * (q+1+lenzt));
-	ztl = (double*) malloc(sizeof(double) * (lenzt+forlength));
+	ztl = (double*) calloc(lenzt+forlength,sizeof(double));
 
 
 	if (d > 0) {
@@ -105,7 +105,9 @@ void predictarima(double *inp,int leninp,int p,int d, int q,double *phi, double
 			temp2 = 0.0;
 
 			for(ztc = 0; ztc < L-1;++ztc) {
-				temp=temp+coeff2[ztc]*ztl[lenzt-c2+count-ztc];
+				if (lenzt-c2+count-ztc >= 0) {
+					temp=temp+coeff2[ztc]*ztl[lenzt-c2+count-ztc];
+				}
 			}
 
 			if (counter2 < M - 1) {
diff --git a/src/spectrum.c b/src/spectrum.c
index 63985f7..cae8f79 100644
--- a/src/spectrum.c
+++ b/src/spectrum.c
@@ -130,11 +130,13 @@ void periodogram(spectrum_fft_object obj,double* vec,double* spec, double *freq,
 		}
 	}	
 
+	free(inp);
+	free(oup);
 }
 
 void psd(spectrum_fft_object obj,double* vec,double* spec, double *freq, int side) {
 	int i,N,N2,NO;
-	double m,NP;
+	double NP;
 	fft_data *inp;
 	fft_data *oup;
 	
@@ -145,7 +147,6 @@ void psd(spectrum_fft_object obj,double* vec,double* spec, double *freq, int sid
 	inp = (fft_data*) malloc (sizeof(fft_data) * N);
 	oup = (fft_data*) malloc (sizeof(fft_data) * N);
 	
-	m = mean(vec,N);
 	for (i = 0; i < NO;++i) {
 		inp[i].re = vec[i];
 		inp[i].im = 0.0;
@@ -213,6 +214,8 @@ void psd(spectrum_fft_object obj,double* vec,double* spec, double *freq, int sid
 		}
 	}	
 
+	free(inp);
+	free(oup);
 }
 
 void psd_autocovar(auto_fft_object obj,double *vec,double* spec, double *freq,int Nfft, int side) {
@@ -265,9 +268,13 @@ void psd_autocovar(auto_fft_object obj,double *vec,double* spec, double *freq,in
 	
 	free_fft(fobj);
 	free(acov);
+	free(inp);
+	free(oup);
 }
 
 void free_spectrum(spectrum_fft_object object) {
+	if (object->fobj2 != object->fobj) free_fft(object->fobj2);
+	free_fft(object->fobj);
 	free(object);
 }
 
diff --git a/src/talg.c b/src/talg.c
index 51ed9e8..8f3eb62 100644
--- a/src/talg.c
+++ b/src/talg.c
@@ -116,6 +116,7 @@ void deld(int d, double* C) {
 	vec[0] = 1.;
 	vec[1] = -1.;
 	oup[0] = 1.;
+	C[0] = 1.;
 	// oup has length (d+1)
 	
 	for(i = 0; i < d; ++i) {
@@ -153,6 +154,7 @@ void delds(int D, int s, double *C) {
 	vec[0] = 1.0;
 	vec[s] = -1.0;
 	oup[0] = 1.0;
+	C[0] = 1.0;
 	
 	for(i = 0; i < D; ++i) {
 		poly(oup,vec,C,i*s+1,s+1);
@@ -673,9 +675,7 @@ void gradtrans(double *raw, int p, int q, int P, int Q,int M, double *A) {
 
 	for (i = 0; i < N; ++i) {
 		for (j = 0; j < N; ++j) {
-			if (i == j) {
-				A[i + j*N] = (double)i;
-			}
+			A[i + j*N] = (i == j) ? 1.0 : 0.0;
 		}
 	}
 
@@ -702,7 +702,7 @@ void gradtrans(double *raw, int p, int q, int P, int Q,int M, double *A) {
 			w1[i] += eps;
 			artrans(q, w1, w3);
 			for (j = 0; j < q; ++j) {
-				A[i + j*N + v] = (w3[j] - w2[j]) / eps;
+				A[i + (j + v)*N + v] = (w3[j] - w2[j]) / eps;
 			}
 			w1[i] -= eps;
 		}
-- 
2.43.0


From 33ebca2fecda8fe8000a8a003587bf60d4c6a43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:53 +0000
Subject: [PATCH 27/47] fix: regression defines rank and F statistic on every
 path; lls_normal releases its work arrays

---
 src/lls.c        |  6 ++++++
 src/regression.c | 12 ++++++++----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/lls.c b/src/lls.c
index debe859..963ed00 100644
--- a/src/lls.c
+++ b/src/lls.c
@@ -30,6 +30,11 @@ int lls_normal(double *A,double *b,int M,int N,double *x) {
 
 	sc = chol(C,N);
 	if (sc == -1) {
+		free(AT);
+		free(d);
+		free(C);
+		free(y);
+		free(CT);
 		return -1;
 	}
 
@@ -65,6 +70,7 @@ int lls_normal(double *A,double *b,int M,int N,double *x) {
 	free(d);
 	free(C);
 	free(y);
+	free(CT);
 	return retcode;
 }
 
diff --git a/src/regression.c b/src/regression.c
index c27b46a..e78c4a5 100644
--- a/src/regression.c
+++ b/src/regression.c
@@ -49,6 +49,7 @@ reg_object reg_init(int N, int p) {
 	obj->aic = 0.0;
 	obj->bic = 0.0;
 	obj->aicc = 0.0;
+	obj->rank = 0;
 
 	for (i = 0; i < p + 1; ++i) {
 		(obj->beta + i)->value = 0.0;
@@ -279,6 +280,7 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 
 	//ludecomp(xxt,p,ipiv);
 	//linsolve(xxt,p,yxt,ipiv,b);
+	*rank = 0; // only the qr method calculates the rank
 	if (p > 0) {
 		if (!strcmp(llsmethod, "qr")) {
 			*rank = lls_qr(xxt, yxt, p, p, b);
@@ -393,15 +395,17 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 
 	if (intercept == 1) {
 		if (p == 1) {
-			anv[1] = R2[0] * (*bt - N*ym2);
-			anv[2] = (1. - R2[0]) * (*bt - N*ym2);
+			anv[1] = *temp1 - N*ym2;
+			anv[2] = *bt - *temp1;
 			anv[0] = anv[1] + anv[2];
 			anv[3] = (double)p - dfi;
 			anv[4] = (double)df;
+			anv[5] = NAN;
+			anv[6] = NAN;
 		}
 		else if (p > 1) {
-			anv[1] = R2[0] * (*bt - N*ym2);
-			anv[2] = (1. - R2[0]) * (*bt - N*ym2);
+			anv[1] = *temp1 - N*ym2;
+			anv[2] = *bt - *temp1;
 			anv[0] = anv[1] + anv[2];
 			anv[3] = (double)p - dfi;
 			anv[4] = (double)df;
-- 
2.43.0


From 1173a37acd5ac9732dcffeffcaeebcc2d8a18bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:34 +0000
Subject: [PATCH 28/47] fix: minimizers refuse non-finite starts, gradients and
 residuals, keep the caller's start and return their best point

---
 src/lnsrchmp.c   | 25 ++++++++++++++++++-
 src/neldermead.c | 63 ++++++++++++++++++++++++++++++++++++------------
 src/newtonmin.c  | 35 ++++++++++++++++++++-------
 src/nls.c        | 54 ++++++++++++++++++++++++++++++++++++++---
 src/optimc.c     | 63 +++++++++++++++++++++++++++++++-----------------
 src/secant.c     | 20 ++++++++++++---
 6 files changed, 206 insertions(+), 54 deletions(-)

diff --git a/src/lnsrchmp.c b/src/lnsrchmp.c
index 9ae37e6..81d234f 100644
--- a/src/lnsrchmp.c
+++ b/src/lnsrchmp.c
@@ -21,6 +21,19 @@ http://www.cs.umd.edu/~oleary/LBFGS/FORTRAN/linesearch.f
 
 
 
+static int gradcheck(double *f, int N) {
+	int i;
+
+	for (i = 0; i < N; ++i) {
+		if (f[i] >= DBL_MAX || f[i] <= -DBL_MAX || f[i] != f[i]) {
+			printf("Program Exiting as the gradient is not finite");
+			return 15;
+		}
+	}
+
+	return 0;
+}
+
 int grad_fd(custom_function *funcpt, custom_gradient *funcgrad, double *x, int N, double *dx,
 		double eps2, double *f) {
 	int retval;
@@ -31,6 +44,7 @@ int grad_fd(custom_function *funcpt, custom_gradient *funcgrad, double *x, int N
 	} else {
 		//printf("Analytic gradient \n");
 		FUNCGRAD_EVAL(funcgrad,x,N,f);
+		retval = gradcheck(f,N);
 	}
 
 	return retval;
@@ -47,6 +61,7 @@ int grad_cd(custom_function *funcpt, custom_gradient *funcgrad, double *x, int N
 	} else {
 		//printf("Analytic gradient \n");
 		FUNCGRAD_EVAL(funcgrad,x,N,f);
+		retval = gradcheck(f,N);
 	}
 	return retval;
 
@@ -74,20 +89,24 @@ int grad_calc2(custom_function *funcpt, double *x, int N, double *dx, double eps
 		fp = FUNCPT_EVAL(funcpt,x,N);
 		if (fp >= DBL_MAX || fp <= -DBL_MAX) {
 			printf("Program Exiting as the function value exceeds the maximum double value");
+			x[j] = temp;
 			return 15;
 		}
 		if (fp != fp) {
 			printf("Program Exiting as the function returns NaN");
+			x[j] = temp;
 			return 15;
 		}
 		x[j] = temp - stepsize;
 		fm = FUNCPT_EVAL(funcpt,x,N);
 		if (fm >= DBL_MAX || fm <= -DBL_MAX) {
 			printf("Program Exiting as the function value exceeds the maximum double value");
+			x[j] = temp;
 			return 15;
 		}
 		if (fm != fm) {
 			printf("Program Exiting as the function returns NaN");
+			x[j] = temp;
 			return 15;
 		}
 		f[j] = (fp - fm)/ (2 * stepsize);
@@ -598,7 +617,11 @@ int cvsrch(custom_function *funcpt, custom_gradient *funcgrad, double *x, double
 			free(wa);
 			return 15;
 		}
-		grad_cd(funcpt,funcgrad, x, N, dx, eps2,g);
+		if (grad_cd(funcpt,funcgrad, x, N, dx, eps2,g) == 15) {
+			free(rcheck);
+			free(wa);
+			return 15;
+		}
 		nfev++;
 
 
diff --git a/src/neldermead.c b/src/neldermead.c
index 58a1f0c..3a844b4 100644
--- a/src/neldermead.c
+++ b/src/neldermead.c
@@ -24,10 +24,21 @@
 
  */
 
+static double nel_eval(custom_function *funcpt, double *x, int N) {
+	double f;
+
+	f = FUNCPT_EVAL(funcpt,x,N);
+	if (f != f || f > DBL_MAX || f < -DBL_MAX) {
+		f = DBL_MAX; // a vertex without a finite value is the worst one
+	}
+
+	return f;
+}
+
 int nel_min(custom_function *funcpt,double *xc,int N,double *dx,double fsval,int MAXITER,int *niter,
 		double eps,double *xf) {
 	int rcode,NN,i,j,ct,ctl;
-	int ihi,ilo,L,siter;
+	int ihi,ilo,L,siter,pending;
 	double reqmin,rcoeff,ecoeff,ccoeff,fn,del;
 	double ylo,ynl,temp,ys,yss;
 	double *P,*Y,*PB,*PS,*PSS,*PM,*PL,*xi,*xmin;
@@ -60,14 +71,19 @@ int nel_min(custom_function *funcpt,double *xc,int N,double *dx,double fsval,int
 	for (i = 0; i < N;++i) {
 		xi[i] = xc[i];
 	}
+	pending = 1;
+	ilo = 0;
+	Y[0] = DBL_MAX;
 
 	while (ctl == 0 && *niter < siter) {
 		// Create N+1 point Simplex
+		pending = 0;
+		ct = N * N;
 		for (i = 0; i < N;++i) {
 			P[ct + i] = xi[i];
 		}
 
-		fn = FUNCPT_EVAL(funcpt,xi,N);
+		fn = nel_eval(funcpt,xi,N);
 		Y[N] = fn;
 
 
@@ -77,7 +93,7 @@ int nel_min(custom_function *funcpt,double *xc,int N,double *dx,double fsval,int
 			for (j = 0; j < N;++j) {
 				P[ct + j] = xi[j];
 			}
-			fn = FUNCPT_EVAL(funcpt, xi, N);
+			fn = nel_eval(funcpt, xi, N);
 			Y[i] = fn;
 			xi[i] -= dx[i] * del;
 		}
@@ -134,13 +150,13 @@ int nel_min(custom_function *funcpt,double *xc,int N,double *dx,double fsval,int
 			for (i = 0; i < N;++i) {
 				PS[i] = (1.0 + rcoeff) * PB[i] - rcoeff * P[ct+i];
 			}
-			ys = FUNCPT_EVAL(funcpt, PS, N);
+			ys = nel_eval(funcpt, PS, N);
 
 			if (ys < ylo) {
 				for (i = 0; i < N;++i) {
 					PSS[i] = ecoeff * PS[i] + (1.0 - ecoeff) * PB[i];
 				}
-				yss = FUNCPT_EVAL(funcpt, PSS, N);
+				yss = nel_eval(funcpt, PSS, N);
 
 				if (yss < ys) {
 					for(i = 0; i < N;++i) {
@@ -173,7 +189,7 @@ int nel_min(custom_function *funcpt,double *xc,int N,double *dx,double fsval,int
 					for (i = 0; i < N;++i) {
 						PSS[i] = ccoeff * P[ct + i] + (1.0 - ccoeff) * PB[i];
 					}
-					yss = FUNCPT_EVAL(funcpt, PSS, N);
+					yss = nel_eval(funcpt, PSS, N);
 
 					if (yss <= Y[ihi]) {
 						for(i = 0; i < N;++i) {
@@ -184,13 +200,17 @@ int nel_min(custom_function *funcpt,double *xc,int N,double *dx,double fsval,int
 					} else {
 
 						//ctl = ilo * N;
+						ct = ilo * N;
+						for (i = 0; i < N;++i) {
+							PL[i] = P[ct + i];
+						}
 						for(i = 0; i < NN;++i) {
 							ct = i * N;
 							for (j = 0;j < N;++j) {
 								P[ct + j] = 0.5 * (P[ct + j] + PL[j]);
 								PM[j] = P[ct + j];
 							}
-							Y[i] = FUNCPT_EVAL(funcpt, PM, N);
+							Y[i] = nel_eval(funcpt, PM, N);
 
 						}
 						ylo = Y[0];
@@ -215,7 +235,7 @@ int nel_min(custom_function *funcpt,double *xc,int N,double *dx,double fsval,int
 					for (i = 0; i < N;++i) {
 						PSS[i] = ccoeff * P[ct + i] + (1.0 - ccoeff) * PB[i];
 					}
-					yss = FUNCPT_EVAL(funcpt, PSS, N);
+					yss = nel_eval(funcpt, PSS, N);
 
 					if (yss <= ys) {
 						ct = ihi * N;
@@ -276,21 +296,22 @@ int nel_min(custom_function *funcpt,double *xc,int N,double *dx,double fsval,int
 		for (i = 0; i < N;++i) {
 			del = dx[i] * dval;
 			xmin[i] += del;
-			fn = FUNCPT_EVAL(funcpt, xmin, N);
+			fn = nel_eval(funcpt, xmin, N);
 			if (fn < ynl) {
 				ctl = 0;
 				break;
 			} else {
 				ctl++;
 			}
-			xmin[i] = xmin[i] - 2 * del;
-			fn = FUNCPT_EVAL(funcpt, xmin, N);
+			xmin[i] = P[ct + i] - del;
+			fn = nel_eval(funcpt, xmin, N);
 			if (fn < ynl) {
 				ctl = 0;
 				break;
 			} else {
 				ctl++;
 			}
+			xmin[i] = P[ct + i];
 		}
 
 		if (ctl == 0) {
@@ -299,18 +320,30 @@ int nel_min(custom_function *funcpt,double *xc,int N,double *dx,double fsval,int
 			}
 			del = dval;
 			s = 1.0;
+			pending = 1;
 		}
 
 	}
 
-	ct = N * N;
+	// The best point is either the lowest vertex or the point of a pending restart
+	if (pending == 1) {
+		fn = nel_eval(funcpt, xi, N);
+	} else {
+		fn = DBL_MAX;
+	}
+	ct = ilo * N;
 	for (i = 0; i < N;++i) {
-		xf[i] = P[ct + i];
+		xf[i] = (fn < Y[ilo]) ? xi[i] : P[ct + i];
+	}
+	if (fn > Y[ilo]) {
+		fn = Y[ilo];
 	}
 
-	if (rcode == 0 && *niter >= siter) {
+	if (fn == DBL_MAX) {
+		rcode = 15;
+	} else if (*niter >= siter) {
 		rcode = 4;
-	} else if (*niter < siter) {
+	} else {
 		rcode = 1;
 	}
 
diff --git a/src/newtonmin.c b/src/newtonmin.c
index 6943d1e..0f67144 100644
--- a/src/newtonmin.c
+++ b/src/newtonmin.c
@@ -502,7 +502,7 @@ void hessian_fdg(custom_gradient *funcgrad, double *x, int N, double *jac, doubl
 
 int hessian_opt(custom_function *funcpt, custom_gradient *funcgrad, double *x, int N, double *jac,
 		double *dx,double eps,double eps2,double *H) {
-	int retval;
+	int retval,i;
 	retval = 0;
 	if (funcgrad == NULL) {
 		//printf("HESSF \n");
@@ -510,6 +510,13 @@ int hessian_opt(custom_function *funcpt, custom_gradient *funcgrad, double *x, i
 	} else {
 		//printf("HESSG \n");
 		hessian_fdg(funcgrad,x,N,jac,dx,eps2,H);
+		for (i = 0; i < N*N; ++i) {
+			if (H[i] >= DBL_MAX || H[i] <= -DBL_MAX || H[i] != H[i]) {
+				printf("Program Exiting as the Hessian is not finite");
+				retval = 15;
+				break;
+			}
+		}
 	}
 
 	return retval;
@@ -1304,6 +1311,9 @@ int newton_min_func(custom_function *funcpt, custom_gradient *funcgrad, double *
 	if (gfdcode == 15) {
 		rcode = 15;
 	}
+	for (i = 0; i < N; ++i) {
+		xf[i] = xi[i];
+	}
 	
 	
 	//maxstep = 1000.0; // Needs to be set at a much higher value proportional to l2 norm of dx
@@ -1346,7 +1356,7 @@ int newton_min_func(custom_function *funcpt, custom_gradient *funcgrad, double *
 	
 	stop0 = array_max_abs(scheck,N);
 	
-	if (stop0 <= gtol * 1e-03) {
+	if (rcode == 0 && stop0 <= gtol * 1e-03) {
 		rcode = 1;
 		for(i = 0; i < N;++i) {
 			xf[i] = xi[i];
@@ -1354,9 +1364,11 @@ int newton_min_func(custom_function *funcpt, custom_gradient *funcgrad, double *
 	}
 	
 	//hessian_fd(funcpt,xi,N,dx,eps2,hess);
-	hdcode = hessian_opt(funcpt,funcgrad,xi,N,jac,dx,eps,eps2,hess);
-	if (hdcode == 15) {
-		rcode = 15;
+	if (rcode == 0) {
+		hdcode = hessian_opt(funcpt,funcgrad,xi,N,jac,dx,eps,eps2,hess);
+		if (hdcode == 15) {
+			rcode = 15;
+		}
 	}
 	
 	for(i = 0; i < N;++i) {
@@ -1830,6 +1842,9 @@ int newton_min_trust(custom_function *funcpt, custom_gradient *funcgrad, double
 	if (gfdcode == 15) {
 		rcode = 15;
 	}
+	for (i = 0; i < N; ++i) {
+		xf[i] = xi[i];
+	}
 	fdiff = 1;
 	//grad_cd(funcpt,funcgrad,xi,N,dx,eps3,jac);
 	
@@ -1867,7 +1882,7 @@ int newton_min_trust(custom_function *funcpt, custom_gradient *funcgrad, double
 	
 	stop0 = array_max_abs(scheck,N);
 	
-	if (stop0 <= gtol * 1e-03) {
+	if (rcode == 0 && stop0 <= gtol * 1e-03) {
 		rcode = 1;
 		for(i = 0; i < N;++i) {
 			xf[i] = xi[i];
@@ -1876,9 +1891,11 @@ int newton_min_trust(custom_function *funcpt, custom_gradient *funcgrad, double
 	}
 	
 	//hessian_fd(funcpt,xi,N,dx,eps,hess);
-	hdcode = hessian_opt(funcpt,funcgrad,xi,N,jac,dx,eps,eps2,hess);
-	if (hdcode == 15) {
-		rcode = 15;
+	if (rcode == 0) {
+		hdcode = hessian_opt(funcpt,funcgrad,xi,N,jac,dx,eps,eps2,hess);
+		if (hdcode == 15) {
+			rcode = 15;
+		}
 	}
 	
 	for(i = 0; i < N;++i) {
diff --git a/src/nls.c b/src/nls.c
index 6278e22..237d0b6 100644
--- a/src/nls.c
+++ b/src/nls.c
@@ -61,7 +61,7 @@ double enorm(double *x, int N) {
     		if (s2 >= x3max) {
     			enrm = sqrt(s2*(one+(x3max/s2)*(x3max*s3)));
     		}
-    		if (s2 < x3max) {
+    		else {
     			enrm = sqrt(x3max*((s2/x3max)+(x3max*s3)));
     		}
     	} else {
@@ -774,6 +774,9 @@ c
 c         info = 8  gtol is too small. fvec is orthogonal to the
 c                   columns of the jacobian to machine precision.
 c
+c         info = 15 the residuals at the starting point or the
+c                   jacobian are not finite.
+c
 c       nfev is an integer output variable set to the number of
 c         calls to fcn with iflag = 1.
 c
@@ -806,11 +809,19 @@ c         the first n elements of the vector (q transpose)*fvec.
     *njev = 0;
 
     if (N <= 0 || M < N || ldfjac < M || ftol < zero || xtol < zero || gtol < zero || maxfev <= 0 || factor <= zero) {
+    	free(wa1);
+    	free(wa2);
+    	free(wa3);
+    	free(wa4);
     	return info;
     }
     if (mode == 2) {
 		for(j = 0; j < N;++j) {
 			if (diag[j] <= 0.0) {
+				free(wa1);
+				free(wa2);
+				free(wa3);
+				free(wa4);
 				return info;
 			}
 		}
@@ -822,6 +833,9 @@ c         the first n elements of the vector (q transpose)*fvec.
     FUNCMULT_EVAL(funcmult,x,M,N,fvec);
     *nfev= 1;
     fnorm = enorm(fvec,M);
+    if (!(fnorm <= DBL_MAX)) {
+    	info = 15;
+    }
 
     //     initialize levenberg-marquardt parameter and iteration counter.
     par = zero;
@@ -830,7 +844,7 @@ c         the first n elements of the vector (q transpose)*fvec.
 
     //     beginning of the outer loop.
 
-    while(1) {
+    while(info == 0) {
     	//        calculate the jacobian matrix.
     	ratio = zero;
     	JACOBIAN_EVAL(jacobian,x,M,N,fjac);
@@ -840,6 +854,16 @@ c         the first n elements of the vector (q transpose)*fvec.
 
     	qrfac(fjac,M,N,ldfjac,1,ipvt,N,wa1,wa2,eps);
 
+    	//        a jacobian that is not finite ends the search.
+    	for(j = 0; j < N;++j) {
+    		if (!(wa2[j] <= DBL_MAX)) {
+    			info = 15;
+    		}
+    	}
+    	if (info != 0) {
+    		break;
+    	}
+
     	//        on the first iteration and if mode is 1, scale according
     	//        to the norms of the columns of the initial jacobian.
 
@@ -1184,6 +1208,9 @@ c
 c         info = 8  gtol is too small. fvec is orthogonal to the
 c                   columns of the jacobian to machine precision.
 c
+c         info = 15 the residuals at the starting point or the
+c                   jacobian are not finite.
+c
 c       nfev is an integer output variable set to the number of
 c         calls to fcn with iflag = 1.
 c
@@ -1216,12 +1243,20 @@ c         the first n elements of the vector (q transpose)*fvec.
     *njev = 0;
 
     if (N <= 0 || M < N || ldfjac < M || ftol < zero || xtol < zero || gtol < zero || maxfev <= 0 || factor <= zero) {
+    	free(wa1);
+    	free(wa2);
+    	free(wa3);
+    	free(wa4);
     	return info;
     }
 
     if (mode == 2) {
 		for(j = 0; j < N;++j) {
 			if (diag[j] <= 0.0) {
+				free(wa1);
+				free(wa2);
+				free(wa3);
+				free(wa4);
 				return info;
 			}
 		}
@@ -1233,6 +1268,9 @@ c         the first n elements of the vector (q transpose)*fvec.
     FUNCMULT_EVAL(funcmult,x,M,N,fvec);
     *nfev= 1;
     fnorm = enorm(fvec,M);
+    if (!(fnorm <= DBL_MAX)) {
+    	info = 15;
+    }
 
     //     initialize levenberg-marquardt parameter and iteration counter.
     par = zero;
@@ -1241,7 +1279,7 @@ c         the first n elements of the vector (q transpose)*fvec.
 
     //     beginning of the outer loop.
 
-    while(1) {
+    while(info == 0) {
     	//        calculate the jacobian matrix.
     	ratio = zero;
     	fdjac2(funcmult,x,M,N,fvec,fjac,ldfjac,epsfcn,epsmch);
@@ -1251,6 +1289,16 @@ c         the first n elements of the vector (q transpose)*fvec.
 
     	qrfac(fjac,M,N,ldfjac,1,ipvt,N,wa1,wa2,eps);
 
+    	//        a jacobian that is not finite ends the search.
+    	for(j = 0; j < N;++j) {
+    		if (!(wa2[j] <= DBL_MAX)) {
+    			info = 15;
+    		}
+    	}
+    	if (info != 0) {
+    		break;
+    	}
+
     	//        on the first iteration and if mode is 1, scale according
     	//        to the norms of the columns of the initial jacobian.
 
diff --git a/src/optimc.c b/src/optimc.c
index b4b3e59..9ee8a38 100644
--- a/src/optimc.c
+++ b/src/optimc.c
@@ -93,6 +93,7 @@ nls_object nls_init(int M,int N) {
 	obj->Maxfev = 1000;
 	obj->nfev = 0;
 	obj->njev = 0;
+	obj->retval = 0;
 	obj->ldfjac = M;
 	obj->mode = 1;
 
@@ -157,9 +158,10 @@ static int mvalue(int N) {
 int fminunc(custom_function *funcpt, custom_gradient *funcgrad, int N, double *xi,double maxstep, int method,double *xf) {
 	int i,retval,MAXITER,niter,m;
 	double fsval,eps,gtol,stol,ftol,xtol,delta;
-	double *dx;
+	double *dx,*x0;
 
 	dx = (double*) malloc(sizeof(double) * N);
+	x0 = (double*) malloc(sizeof(double) * N);
 		/*
 		 * Method 0 - Nelder-Mead
 		 * Method 1 - Newton Line Search
@@ -196,31 +198,32 @@ int fminunc(custom_function *funcpt, custom_gradient *funcgrad, int N, double *x
 
 	for(i = 0; i < N;++i) {
 		dx[i] = 1.0;
+		x0[i] = xi[i]; // the minimizers scale their start in place
 	}
 
 	if (method == 0) {
-		retval = nel_min(funcpt,xi,N,dx,fsval,MAXITER,&niter,eps,xf);
+		retval = nel_min(funcpt,x0,N,dx,fsval,MAXITER,&niter,eps,xf);
 	} else if (method == 1) {
 		gtol = pow(eps,1.0/3.0);
 		stol = gtol * gtol;
 		if (MAXITER < 1000) {
 			MAXITER = 1000;
 		}
-		retval = newton_min_func(funcpt,funcgrad,xi,N,dx,fsval,maxstep,MAXITER,&niter,eps,gtol,stol,xf);
+		retval = newton_min_func(funcpt,funcgrad,x0,N,dx,fsval,maxstep,MAXITER,&niter,eps,gtol,stol,xf);
 	} else if (method == 2) {
 		gtol = pow(eps,1.0/3.0);
 		stol = gtol * gtol;
 		if (MAXITER < 1000) {
 			MAXITER = 1000;
 		}
-		retval = newton_min_trust(funcpt,funcgrad,xi,N,dx,fsval,delta,0,MAXITER,&niter,eps,gtol,stol,xf);
+		retval = newton_min_trust(funcpt,funcgrad,x0,N,dx,fsval,delta,0,MAXITER,&niter,eps,gtol,stol,xf);
 	} else if (method == 3) {
 		gtol = pow(eps,1.0/3.0);
 		stol = gtol * gtol;
 		if (MAXITER < 1000) {
 			MAXITER = 1000;
 		}
-		retval = newton_min_trust(funcpt,funcgrad,xi,N,dx,fsval,delta,1,MAXITER,&niter,eps,gtol,stol,xf);
+		retval = newton_min_trust(funcpt,funcgrad,x0,N,dx,fsval,delta,1,MAXITER,&niter,eps,gtol,stol,xf);
 	} else if (method == 4) {
 		gtol = pow(eps,1.0/3.0);
 		ftol = gtol * gtol;
@@ -228,14 +231,14 @@ int fminunc(custom_function *funcpt, custom_gradient *funcgrad, int N, double *x
 		if (MAXITER < 1000) {
 			MAXITER = 1000;
 		}
-		retval = conjgrad_min_lin(funcpt,funcgrad,xi,N,dx,maxstep,MAXITER,&niter,eps,gtol,ftol,xtol,xf);
+		retval = conjgrad_min_lin(funcpt,funcgrad,x0,N,dx,maxstep,MAXITER,&niter,eps,gtol,ftol,xtol,xf);
 	} else if (method == 5) {
 		gtol = pow(eps,1.0/3.0);
 		stol = gtol * gtol;
 		if (MAXITER < 1000) {
 			MAXITER = 1000;
 		}
-		retval = bfgs_min(funcpt,funcgrad,xi,N,dx,fsval,maxstep,MAXITER,&niter,eps,gtol,stol,xf);
+		retval = bfgs_min(funcpt,funcgrad,x0,N,dx,fsval,maxstep,MAXITER,&niter,eps,gtol,stol,xf);
 	} else if (method == 6) {
 		gtol = pow(eps,1.0/3.0);
 		ftol = gtol * gtol;
@@ -244,7 +247,7 @@ int fminunc(custom_function *funcpt, custom_gradient *funcgrad, int N, double *x
 			MAXITER = 1000;
 		}
 		m = mvalue(N);
-		retval = bfgs_l_min(funcpt,funcgrad,xi,N,m,dx,fsval,maxstep,MAXITER,&niter,eps,gtol,ftol,xtol,xf);
+		retval = bfgs_l_min(funcpt,funcgrad,x0,N,m,dx,fsval,maxstep,MAXITER,&niter,eps,gtol,ftol,xtol,xf);
 	}
 	else if (method == 7) {
 		gtol = pow(eps, 1.0 / 3.0);
@@ -254,7 +257,7 @@ int fminunc(custom_function *funcpt, custom_gradient *funcgrad, int N, double *x
 			MAXITER = 1000;
 		}
 		m = mvalue(N);
-		retval = bfgs_min2(funcpt, funcgrad, xi, N, m, dx, fsval, maxstep, MAXITER, &niter, eps, gtol, ftol, xtol, xf);
+		retval = bfgs_min2(funcpt, funcgrad, x0, N, m, dx, fsval, maxstep, MAXITER, &niter, eps, gtol, ftol, xtol, xf);
 	}
 	else {
 		printf("Method Value should be one of 0,1,2,3,4,5,6 or 7. See Documentation. \n");
@@ -264,6 +267,7 @@ int fminunc(custom_function *funcpt, custom_gradient *funcgrad, int N, double *x
 
 
 	free(dx);
+	free(x0);
 	return retval;
 }
 
@@ -280,9 +284,10 @@ double fminbnd(custom_funcuni *funcuni,double a, double b) {
 
 int fminnewt(custom_function *funcpt, custom_gradient *funcgrad, int N, double *xi,
 	     double delta,double *dx,double fsval,double maxstep, int method,double *xf) {
-	int retval;
+	int i,retval;
 	int MAXITER,niter;
 	double eps,gtol,stol;
+	double *dx0,*x0;
 	/*
 
 	 * Method 1 - Newton Line Search
@@ -315,6 +320,14 @@ int fminnewt(custom_function *funcpt, custom_gradient *funcgrad, int N, double *
 	 *
 	 */
 
+	dx0 = (double*) malloc(sizeof(double) * N);
+	x0 = (double*) malloc(sizeof(double) * N);
+
+	for(i = 0; i < N;++i) {
+		dx0[i] = dx[i];
+		x0[i] = xi[i]; // the minimizers scale their arguments in place
+	}
+
 	MAXITER = 200*N;
 	niter = 0;
 
@@ -326,27 +339,29 @@ int fminnewt(custom_function *funcpt, custom_gradient *funcgrad, int N, double *
 		if (MAXITER < 1000) {
 			MAXITER = 1000;
 		}
-		retval = newton_min_func(funcpt,funcgrad,xi,N,dx,fsval,maxstep,MAXITER,&niter,eps,gtol,stol,xf);
+		retval = newton_min_func(funcpt,funcgrad,x0,N,dx0,fsval,maxstep,MAXITER,&niter,eps,gtol,stol,xf);
 	} else if (method == 2) {
 		gtol = pow(eps,1.0/3.0);
 		stol = gtol * gtol;
 		if (MAXITER < 1000) {
 			MAXITER = 1000;
 		}
-		retval = newton_min_trust(funcpt,funcgrad,xi,N,dx,fsval,delta,0,MAXITER,&niter,eps,gtol,stol,xf);
+		retval = newton_min_trust(funcpt,funcgrad,x0,N,dx0,fsval,delta,0,MAXITER,&niter,eps,gtol,stol,xf);
 	} else if (method == 3) {
 		gtol = pow(eps,1.0/3.0);
 		stol = gtol * gtol;
 		if (MAXITER < 1000) {
 			MAXITER = 1000;
 		}
-		retval = newton_min_trust(funcpt,funcgrad,xi,N,dx,fsval,delta,1,MAXITER,&niter,eps,gtol,stol,xf);
+		retval = newton_min_trust(funcpt,funcgrad,x0,N,dx0,fsval,delta,1,MAXITER,&niter,eps,gtol,stol,xf);
 	} else {
 		printf("Method Value should be one of 1,2 or 3. See Documentation. \n");
 		exit(1);
 	}
 
 
+	free(dx0);
+	free(x0);
 	return retval;
 }
 
@@ -354,9 +369,10 @@ void optimize(opt_object obj, custom_function *funcpt, custom_gradient *funcgrad
 		int method) {
 	int i,m;
 	double fsval,delta;
-	double *dx;
+	double *dx,*x0;
 
 	dx = (double*) malloc(sizeof(double) * N);
+	x0 = (double*) malloc(sizeof(double) * N);
 		/*
 		 * Method 0 - Nelder-Mead
 		 * Method 1 - Newton Line Search
@@ -391,6 +407,7 @@ void optimize(opt_object obj, custom_function *funcpt, custom_gradient *funcgrad
 
 	for(i = 0; i < N;++i) {
 		dx[i] = 1.0;
+		x0[i] = xi[i]; // the minimizers scale their start in place
 	}
 	obj->Method = method;
 	obj->Iter = 0;
@@ -403,41 +420,41 @@ void optimize(opt_object obj, custom_function *funcpt, custom_gradient *funcgrad
 
 	if (method == 0) {
 		strcpy(obj->MethodName,"Nelder-Mead");
-		obj->retval = nel_min(funcpt,xi,obj->N,dx,fsval,obj->MaxIter,&obj->Iter,obj->eps,obj->xopt);
+		obj->retval = nel_min(funcpt,x0,obj->N,dx,fsval,obj->MaxIter,&obj->Iter,obj->eps,obj->xopt);
 	} else if (method == 1) {
 		strcpy(obj->MethodName,"Newton Line Search");
-		obj->retval = newton_min_func(funcpt,funcgrad,xi,obj->N,dx,fsval,obj->maxstep,obj->MaxIter,&obj->Iter,obj->eps,obj->gtol,
+		obj->retval = newton_min_func(funcpt,funcgrad,x0,obj->N,dx,fsval,obj->maxstep,obj->MaxIter,&obj->Iter,obj->eps,obj->gtol,
 				obj->stol,obj->xopt);
 	} else if (method == 2) {
 		strcpy(obj->MethodName,"Newton Trust Region - Hook Step");
 
-		obj->retval = newton_min_trust(funcpt,funcgrad,xi,obj->N,dx,fsval,delta,0,obj->MaxIter,&obj->Iter,obj->eps,
+		obj->retval = newton_min_trust(funcpt,funcgrad,x0,obj->N,dx,fsval,delta,0,obj->MaxIter,&obj->Iter,obj->eps,
 				obj->gtol,obj->stol,obj->xopt);
 	} else if (method == 3) {
 		strcpy(obj->MethodName,"Newton Trust Region - Double Dog-Leg");
 
-		obj->retval = newton_min_trust(funcpt,funcgrad,xi,obj->N,dx,fsval,delta,1,obj->MaxIter,&obj->Iter,obj->eps,
+		obj->retval = newton_min_trust(funcpt,funcgrad,x0,obj->N,dx,fsval,delta,1,obj->MaxIter,&obj->Iter,obj->eps,
 				obj->gtol,obj->stol,obj->xopt);
 	} else if (method == 4) {
 		strcpy(obj->MethodName,"Conjugate Gradient");
 
-		obj->retval = conjgrad_min_lin(funcpt, funcgrad, xi, obj->N, dx, obj->maxstep, obj->MaxIter, &obj->Iter, obj->eps, obj->gtol,
+		obj->retval = conjgrad_min_lin(funcpt, funcgrad, x0, obj->N, dx, obj->maxstep, obj->MaxIter, &obj->Iter, obj->eps, obj->gtol,
 				obj->ftol,obj->xtol,obj->xopt);
 	} else if (method == 5) {
 		strcpy(obj->MethodName,"BFGS");
 
-		obj->retval = bfgs_min(funcpt, funcgrad, xi, obj->N, dx, fsval, obj->maxstep, obj->MaxIter, &obj->Iter, obj->eps, obj->gtol,
+		obj->retval = bfgs_min(funcpt, funcgrad, x0, obj->N, dx, fsval, obj->maxstep, obj->MaxIter, &obj->Iter, obj->eps, obj->gtol,
 				obj->stol,obj->xopt);
 	} else if (method == 6) {
 		strcpy(obj->MethodName,"Limited Memory BFGS");
 		m = mvalue(N);
-		obj->retval = bfgs_l_min(funcpt, funcgrad, xi, obj->N, m, dx, fsval, obj->maxstep, obj->MaxIter, &obj->Iter, obj->eps,
+		obj->retval = bfgs_l_min(funcpt, funcgrad, x0, obj->N, m, dx, fsval, obj->maxstep, obj->MaxIter, &obj->Iter, obj->eps,
 				obj->gtol,obj->ftol,obj->xtol,obj->xopt);
 	}
 	else if (method == 7) {
 		strcpy(obj->MethodName, "BFGS More-Thuente Line Search");
 		m = mvalue(N);
-		obj->retval = bfgs_min2(funcpt, funcgrad, xi, obj->N, m, dx, fsval, obj->maxstep, obj->MaxIter, &obj->Iter, obj->eps,
+		obj->retval = bfgs_min2(funcpt, funcgrad, x0, obj->N, m, dx, fsval, obj->maxstep, obj->MaxIter, &obj->Iter, obj->eps,
 			obj->gtol, obj->ftol, obj->xtol, obj->xopt);
 	}
 	else {
@@ -449,6 +466,7 @@ void optimize(opt_object obj, custom_function *funcpt, custom_gradient *funcgrad
 	obj->objfunc = FUNCPT_EVAL(funcpt,obj->xopt,obj->N);
 
 	free(dx);
+	free(x0);
 }
 
 void free_opt(opt_object object) {
@@ -514,6 +532,7 @@ void nls(nls_object obj, custom_funcmult *funcmult, custom_jacobian *jacobian,
 	M = obj->M;
 	N = obj-> N;
 	nprint = 0;
+	obj->mode = 1; // diag is set internally
 
 	fvec = (double*) malloc(sizeof(double) *M);
 	fjac = (double*) malloc(sizeof(double) *M * N);
diff --git a/src/secant.c b/src/secant.c
index 6a0723b..c98d5ed 100644
--- a/src/secant.c
+++ b/src/secant.c
@@ -205,6 +205,9 @@ int bfgs_min_naive(custom_function *funcpt, custom_gradient *funcgrad, double *x
 	if (gfdcode == 15) {
 		rcode = 15;
 	}
+	for (i = 0; i < N; ++i) {
+		xf[i] = xi[i];
+	}
 	
 	
 	//maxstep = 1000.0; // Needs to be set at a much higher value proportional to l2 norm of dx
@@ -247,7 +250,7 @@ int bfgs_min_naive(custom_function *funcpt, custom_gradient *funcgrad, double *x
 	
 	stop0 = array_max_abs(scheck,N);
 	
-	if (stop0 <= gtol * 1e-03) {
+	if (rcode == 0 && stop0 <= gtol * 1e-03) {
 		rcode = 1;
 		for(i = 0; i < N;++i) {
 			xf[i] = xi[i];
@@ -476,6 +479,9 @@ int bfgs_min(custom_function *funcpt, custom_gradient *funcgrad, double *xi, int
 	if (gfdcode == 15) {
 		rcode = 15;
 	}
+	for (i = 0; i < N; ++i) {
+		xf[i] = xi[i];
+	}
 
 
 	//maxstep = 1000.0; // Needs to be set at a much higher value proportional to l2 norm of dx
@@ -516,7 +522,7 @@ int bfgs_min(custom_function *funcpt, custom_gradient *funcgrad, double *xi, int
 	
 	stop0 = array_max_abs(scheck,N);
 	
-	if (stop0 <= gtol * 1e-03) {
+	if (rcode == 0 && stop0 <= gtol * 1e-03) {
 		rcode = 1;
 		for(i = 0; i < N;++i) {
 			xf[i] = xi[i];
@@ -645,6 +651,9 @@ int bfgs_min2(custom_function *funcpt, custom_gradient *funcgrad, double *xi, in
 	if (gfdcode == 15) {
 		rcode = 15;
 	}
+	for (i = 0; i < N; ++i) {
+		xf[i] = xi[i];
+	}
 
 
 	//maxstep = 1000.0; // Needs to be set at a much higher value proportional to l2 norm of dx
@@ -687,7 +696,7 @@ int bfgs_min2(custom_function *funcpt, custom_gradient *funcgrad, double *xi, in
 
 	stop0 = array_max_abs(scheck, N);
 
-	if (stop0 <= gtol * 1e-03) {
+	if (rcode == 0 && stop0 <= gtol * 1e-03) {
 		rcode = 1;
 		for (i = 0; i < N; ++i) {
 			xf[i] = xi[i];
@@ -922,6 +931,9 @@ int bfgs_l_min(custom_function *funcpt, custom_gradient *funcgrad, double *xi, i
 	if (gfdcode == 15) {
 		rcode = 15;
 	}
+	for (i = 0; i < N; ++i) {
+		xf[i] = xi[i];
+	}
 
 	if (maxstep <= 0.0) {
 		maxstep = 1000.0;
@@ -960,7 +972,7 @@ int bfgs_l_min(custom_function *funcpt, custom_gradient *funcgrad, double *xi, i
 
 	stop0 = array_max_abs(scheck,N);
 
-	if (stop0 <= gtol * 1e-03) {
+	if (rcode == 0 && stop0 <= gtol * 1e-03) {
 		rcode = 1;
 		for(i = 0; i < N;++i) {
 			xf[i] = xi[i];
-- 
2.43.0


From 786acf92b8d78271bfcbd8a60f18280c9d7a7327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:42 +0000
Subject: [PATCH 29/47] fix: minimizers end with code 15 on non-finite points
 and the More-Thuente search does not step above its start

---
 src/lnsrchmp.c  | 18 ++++++++++++++++++
 src/newtonmin.c |  6 ++++++
 2 files changed, 24 insertions(+)

diff --git a/src/lnsrchmp.c b/src/lnsrchmp.c
index 81d234f..bc55050 100644
--- a/src/lnsrchmp.c
+++ b/src/lnsrchmp.c
@@ -699,6 +699,17 @@ int cvsrch(custom_function *funcpt, custom_gradient *funcgrad, double *x, double
 
 	}
 
+	// a step that ends above the starting value is not taken
+	if (*f > finit) {
+		for (j = 0; j < N; ++j) {
+			x[j] = wa[j];
+		}
+		*f = finit;
+		if (grad_cd(funcpt,funcgrad, x, N, dx, eps2,g) == 15) {
+			info = 15;
+		}
+	}
+
 	free(rcheck);
 	free(wa);
 
@@ -733,6 +744,13 @@ int lnsrchmt(custom_function *funcpt, custom_gradient *funcgrad, double *xi, dou
 	info = cvsrch(funcpt,funcgrad, x,f, jac, alpha, p, N, dx, maxstep,MAXITER,eps2,
 		ftol, gtol, xtol);
 	
+	for (i = 0; i < N; ++i) {
+		if (x[i] != x[i] || fabs(x[i]) > DBL_MAX) {
+			printf("Program Exiting as the point is not finite");
+			info = 15;
+			break;
+		}
+	}
 	retval = info;
 	return retval;
 
diff --git a/src/newtonmin.c b/src/newtonmin.c
index 0f67144..0dd8d60 100644
--- a/src/newtonmin.c
+++ b/src/newtonmin.c
@@ -1215,6 +1215,12 @@ int stopcheck(double fx,int N,double *xc,double *xf,double *jac,double *dx,doubl
 		rcode = 15;
 		return rcode;
 	}
+	for(i = 0; i < N;++i) {
+		if (xf[i] != xf[i] || fabs(xf[i]) > DBL_MAX) {
+			printf("Program Exiting as the point is not finite");
+			return 15;
+		}
+	}
 	scheck = (double*) malloc(sizeof(double) *N);
 	
 	if (fabs(fx) > fabs(fsval)) {
-- 
2.43.0


From c7eab985973b61a082265fb0a6b77c5632171659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:46 +0000
Subject: [PATCH 30/47] fix: autocovariance plans release their transforms,
 burgalg, arma_autocovar and smooth_ stay inside their arrays

---
 src/initest.c | 3 ++-
 src/stats.c   | 2 ++
 src/talg.c    | 4 ++--
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/initest.c b/src/initest.c
index 068523b..7678f09 100644
--- a/src/initest.c
+++ b/src/initest.c
@@ -126,7 +126,8 @@ void burgalg(double *x, int N, int p, double *phi,double *var) {
 
 	dk -= (fk[0] * fk[0] + bk[N] * bk[N]);
 
-	for (i = 0; i < p; ++i) {
+	// orders the sample cannot support keep zero coefficients
+	for (i = 0; i < p && i < N; ++i) {
 		u = 0.0;
 		for (j = 0; j <= N - i - 1; ++j) {
 			u += (fk[i + j + 1] * bk[j]);
diff --git a/src/stats.c b/src/stats.c
index 022e2e6..809f3d0 100644
--- a/src/stats.c
+++ b/src/stats.c
@@ -182,5 +182,7 @@ void autocorr_fft(auto_fft_object obj,double* vec,double* acorr, int M) {
 }
 
 void free_auto(auto_fft_object object) {
+	free_real_fft(object->fobj);
+	free_real_fft(object->iobj);
 	free(object);
 }
diff --git a/src/talg.c b/src/talg.c
index 8f3eb62..008abae 100644
--- a/src/talg.c
+++ b/src/talg.c
@@ -385,7 +385,7 @@ void arma_autocovar(double *phi,double *theta,int p,int q,double var,double* aco
 	}
 	
 	if (p >= q+1) {
-		m = p;
+		m = p1;
 	} else {
 		m = q + 1;
 	}
@@ -1267,8 +1267,8 @@ static int smooth_(int *n, double *x, double *y, double *w, double *span, int *i
 	if (jper == 2) {
 	    j = i__ - ibw - 1;
 	}
-	xti = x[j];
 	if (j >= 1) {
+	    xti = x[j];
 	    goto L10;
 	}
 	j = *n + j;
-- 
2.43.0


From b4f96673cf9d54776acc9f1a0446fe87742d06dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:46 +0000
Subject: [PATCH 31/47] fix: svd, lls_svd, francisQR and ur_df2 release their
 work arrays on every path

---
 src/initest.c  |  1 +
 src/lls.c      |  8 ++++++++
 src/matrix.c   | 10 +++++++---
 src/unitroot.c |  2 +-
 4 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/initest.c b/src/initest.c
index 7678f09..e67dc51 100644
--- a/src/initest.c
+++ b/src/initest.c
@@ -119,6 +119,7 @@ void burgalg(double *x, int N, int p, double *phi,double *var) {
 	an[0] = 1.0;
 
 	dk = 0.0;
+	*var = 0.0;
 
 	for (i = 0; i < N1; ++i) {
 		dk += ( 2.0 * fk[i] * fk[i]);
diff --git a/src/lls.c b/src/lls.c
index 963ed00..cea9366 100644
--- a/src/lls.c
+++ b/src/lls.c
@@ -678,6 +678,7 @@ int svd_gr(double *A,int M,int N,double *U,double *V,double *q) {
 				iter++;
 				if (iter > SVDMAXITER) {
 					printf("Convergence Not Achieved \n");
+					free(e);
 					return 15;
 				}
 
@@ -976,6 +977,7 @@ int svd_gr2(double *A,int M,int N,double *U,double *V,double *q) {
 			iter++;
 			if (iter > SVDMAXITER) {
 				printf("Convergence Not Achieved \n");
+				free(e);
 				return 15;
 			}
 
@@ -1234,6 +1236,7 @@ int minfit(double *AB,int M,int N,int P,double *q) {
 			iter++;
 			if (iter > SVDMAXITER) {
 				printf("Convergence Not Achieved \n");
+				free(e);
 				return 15;
 			}
 
@@ -1427,6 +1430,10 @@ int lls_svd(double *Ai,double *bi,int M,int N,double *xo) {
 
 	retcode = svd(Ai,M,N,U,V,q);;
 	if (retcode != 0) {
+		free(U);
+		free(V);
+		free(q);
+		free(C);
 		return retcode;
 	}
 
@@ -1448,6 +1455,7 @@ int lls_svd(double *Ai,double *bi,int M,int N,double *xo) {
 	free(U);
 	free(V);
 	free(q);
+	free(C);
 
 	return retcode;
 }
diff --git a/src/matrix.c b/src/matrix.c
index 09e3ae4..12f0c7a 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -1869,6 +1869,9 @@ void francisQR(double *A,int N) {
 	/*
 	 * Reference - Algorithm 7.5.1 Golub,van Loan Matrix Computations 3rd Edition
 	 */ 
+	if (N <= 2) {
+		return;
+	}
 	x = (double*) malloc(sizeof(double) * 3);
 	v = (double*) malloc(sizeof(double) * 3);
 	AT = (double*) malloc(sizeof(double) * 3 * N);
@@ -1883,9 +1886,6 @@ void francisQR(double *A,int N) {
 	x[0] = A[0]*A[0] + A[1]*A[N] - s*A[0] + t2;
 	x[1] = A[N]*(A[0] + A[N+1] - s);
 	x[2] = A[N] * A[N+N+1];
-	if (N <= 2) {
-		return;
-	}
 	
 	for (k = -1; k < N - 3;++k) {
 		
@@ -2808,6 +2808,7 @@ int svd(double *A,int M,int N,double *U,double *V,double *q) {
 			iter++;
 			if (iter > SVDMAXITER) {
 				printf("Convergence Not Achieved \n");
+				free(e);
 				return 15;
 			}
 
@@ -2963,6 +2964,9 @@ static int rank_c(double *A, int M,int N) {
 	qmax = q[0];
 	if ( ret != 0) {
 		printf("Failed to Compute SVD");
+		free(U);
+		free(V);
+		free(q);
 		return -1;
 	}
 
diff --git a/src/unitroot.c b/src/unitroot.c
index 8fa0b9e..24bde61 100644
--- a/src/unitroot.c
+++ b/src/unitroot.c
@@ -232,6 +232,7 @@ void ur_df2(double *y, int N,const char* type, int *lags,const char *selectlags,
                     critRes[i] = fit->bic;
                 }
 
+                free(varcovar);
                 free_reg(fit);
             }
 
@@ -250,7 +251,6 @@ void ur_df2(double *y, int N,const char* type, int *lags,const char *selectlags,
 
             free(critRes);
             free(XX);
-            free(varcovar);
         }
 
         XX = (double*)malloc(sizeof(double)*N2*(lags_+1));
-- 
2.43.0


From 4468320bc010e5d934a12a3e2eab35d3217ba4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:24 +0000
Subject: [PATCH 32/47] fix: svd, LU pivots and Householder vectors of rank
 deficient matrices stay finite and orthogonal

---
 src/lls.c    |  2 +-
 src/matrix.c | 26 +++++++++++++++++---------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/lls.c b/src/lls.c
index cea9366..6092455 100644
--- a/src/lls.c
+++ b/src/lls.c
@@ -558,7 +558,7 @@ int svd_gr(double *A,int M,int N,double *U,double *V,double *q) {
 
         if (i < M && i != N - 1) {
         	t = i *N;
-        	for(k = l; k < M;++k) {
+        	for(k = l; k < N;++k) {
         		scale += fabs(U[t+k]);
         	}
         	if (scale != 0.0) {
diff --git a/src/matrix.c b/src/matrix.c
index 12f0c7a..d13ee16 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -900,7 +900,7 @@ static int pludecomp(double *A,int N,int *ipiv) {
 		mind = k;
 		for (j=k+1; j < N;++j) {
 			if (mval < fabs(A[j*N + k])) {
-				mval = A[j*N + k];
+				mval = fabs(A[j*N + k]);
 				mind = j;
 			}
 		}
@@ -953,7 +953,7 @@ int rludecomp(double *A, int M, int N, int *ipiv) {
 			mind = k;
 			for (j = k + 1; j < M; ++j) {
 				if (mval < fabs(A[j*N + k])) {
-					mval = A[j*N + k];
+					mval = fabs(A[j*N + k]);
 					mind = j;
 				}
 			}
@@ -991,7 +991,7 @@ int rludecomp(double *A, int M, int N, int *ipiv) {
 			mind = k;
 			for (j = k + 1; j < M; ++j) {
 				if (mval < fabs(A[j*N + k])) {
-					mval = A[j*N + k];
+					mval = fabs(A[j*N + k]);
 					mind = j;
 				}
 			}
@@ -1406,7 +1406,7 @@ static double house_1(double*x,int N,double *v) {
 	if (sigma[0] == 0. && x[0] >= 0.) {
 		beta = 0.;
 	} else if (sigma[0] == 0. && x[0] < 0.) {
-		beta = -2.;
+		beta = 2.;
 	}else {
 		mu = sqrt(sigma[0] + x[0] * x[0]);
 		
@@ -1419,8 +1419,16 @@ static double house_1(double*x,int N,double *v) {
 		
 		beta = (2.0 * v[0] * v[0]) /(sigma[0] + v[0] * v[0]);
 		
-		for (i = 0; i < N;++i) {
-			v[i] /= temp;
+		if (temp == 0.) {
+			// the part of x below x[0] is negligible (underflow)
+			v[0] = 1.;
+			for (i = 1; i < N;++i) {
+				v[i] = 0.;
+			}
+		} else {
+			for (i = 0; i < N;++i) {
+				v[i] /= temp;
+			}
 		}
 		
 	}
@@ -2605,7 +2613,7 @@ int svd(double *A,int M,int N,double *U,double *V,double *q) {
 
         if (i < M && i != N - 1) {
         	t = i *N;
-        	for(k = l; k < M;++k) {
+        	for(k = l; k < N;++k) {
         		scale += fabs(U[t+k]);
         	}
         	if (scale != 0.0) {
@@ -2734,9 +2742,9 @@ int svd(double *A,int M,int N,double *U,double *V,double *q) {
 		t = i * N;
 		if (i < N - 1) {
 			if (g != 0.0) {
-				h = U[t+i+1] * g;
+				//double division avoids underflow of U[t+i+1] * g
 				for(j = l;j < N;++j) {
-					V[j*N+i] = U[t+j] / h;
+					V[j*N+i] = (U[t+j] / U[t+i+1]) / g;
 				}
 				for(j = l;j < N;++j) {
 					s = 0.0;
-- 
2.43.0


From 5a63a48a4750d23f91aac04c52f1d2e552a863fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:59 +0000
Subject: [PATCH 33/47] fix: rsvd accepts sketches as wide as the matrix

---
 src/matrix.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/matrix.c b/src/matrix.c
index d13ee16..0af8d0f 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -3037,6 +3037,9 @@ void rsvd(double *A, int M, int N,int K, int oversample, int n_iter,double *U, d
 	int *ipiv;
 
 	L = K + oversample;
+	if (L > N) {
+		L = N;
+	}
 
 	maxdim = M > N ? M : N;
 	srand(time(NULL));
@@ -3074,7 +3077,12 @@ void rsvd(double *A, int M, int N,int K, int oversample, int n_iter,double *U, d
 		mtranspose(Q1, M, L, Q2);// L*M
 		mmult(Q2, A, Q1, L, M, N);// L* N
 
-		svd_transpose(Q1, L, N, uq, vq, sq);
+		if (L < N) {
+			svd_transpose(Q1, L, N, uq, vq, sq);
+		}
+		else {
+			svd(Q1, L, N, uq, vq, sq);
+		}
 		// uq - LXL
 		// vq - NXL
 		//itranspose(vq, N, L);
-- 
2.43.0


From 27e1c84210b1a54b263b9967e907c929d927447d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:02 +0000
Subject: [PATCH 34/47] fix: svd treats vectors below the underflow threshold
 as zero

---
 src/matrix.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/matrix.c b/src/matrix.c
index 0af8d0f..5ee535c 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -2525,7 +2525,7 @@ OF SUCH DAMAGE.
 
 int svd(double *A,int M,int N,double *U,double *V,double *q) {
 	int i,j,k,l,t,t2,ierr,cancel,iter,l1;
-	double eps,g,x,s,temp,f,h,c,y,z,scale;
+	double eps,tol,g,x,s,temp,f,h,c,y,z,scale;
 	double *e;
 	/*
      THIS SUBROUTINE IS THE MODIFIED C TRANSLATION OF THE
@@ -2556,6 +2556,7 @@ int svd(double *A,int M,int N,double *U,double *V,double *q) {
 	e = (double*) malloc(sizeof(double) * N);
 	ierr = 0;
 	eps = macheps();
+	tol = DBL_MIN / eps; // vectors below this norm are zero, they cannot be scaled back
 	g = scale = x = 0.0;
 
 	for(i = 0; i < M*N;++i) {
@@ -2574,7 +2575,7 @@ int svd(double *A,int M,int N,double *U,double *V,double *q) {
 				scale += fabs(U[k*N+i]);
 			}
 
-			if (scale != 0.0) {
+			if (!(scale <= tol)) {
 				for(k = i; k < M;++k) {
 					t = k * N;
 					U[t+i] /= scale;
@@ -2616,7 +2617,7 @@ int svd(double *A,int M,int N,double *U,double *V,double *q) {
         	for(k = l; k < N;++k) {
         		scale += fabs(U[t+k]);
         	}
-        	if (scale != 0.0) {
+        	if (!(scale <= tol)) {
         		for(k = l; k < N;++k) {
         			U[t+k] /= scale;
         			temp = U[t+k];
-- 
2.43.0


From 50c5142747eefb997111452f79cc6112341a3297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:33 +0000
Subject: [PATCH 35/47] fix: likelihood, residuals and variance are those of
 the published coefficients; Box-Jenkins publishes its accepted parameters and
 the mean

---
 src/boxjenkins.c | 109 ++++++++++++++++++++++++++++++-----------------
 src/emle.c       |  18 ++++++--
 2 files changed, 86 insertions(+), 41 deletions(-)

diff --git a/src/boxjenkins.c b/src/boxjenkins.c
index a94e58d..55ddda3 100644
--- a/src/boxjenkins.c
+++ b/src/boxjenkins.c
@@ -608,9 +608,37 @@ void avalues(double *w,int N,int p, int q, double *phi,double *theta,int s,int p
 
 }
 
+static int finite_array(double *vec,int N) {
+	int i;
+
+	for (i = 0; i < N;++i) {
+		if (vec[i] - vec[i] != 0.0) {
+			return 0;
+		}
+	}
+
+	return 1;
+}
+
+static void order_varcovar(double *varcovar,int k,int M,double *temp) {
+	// The mean is the first parameter of the search and the last one of the published
+	// covariance. The inverse is symmetric up to rounding error.
+	int i,j;
+
+	for (i = 0; i < k;++i) {
+		for (j = 0; j < k;++j) {
+			temp[((i+k-M)%k)*k + (j+k-M)%k] = 0.5 * (varcovar[i*k+j] + varcovar[j*k+i]);
+		}
+	}
+
+	for (i = 0; i < k*k;++i) {
+		varcovar[i] = temp[i];
+	}
+}
+
 int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 		int M,double *thetac,double *var,double eps,double *varcovar,double *residuals) {
-	int retval,i,j,l,k,t,t2,it,Norig,qd,itmax;
+	int retval,i,j,l,k,t,t2,it,Norig,qd,itmax,bad;
 	double lam,vmul,e1,di,eps2,stepsize,temp,tau,hmax,suminc,sumb;
 	double *inp,*b,*at,*at0,*x,*phi0,*theta0,*orig,*A,*g,*D,*h,*binc,*Atemp;
 	double *phiinc,*thetainc,*atinc,*resat,*origval;
@@ -632,6 +660,7 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	}
 	hmax = 1;
 	itmax = 200;
+	bad = 0;
 
 	inp = (double*) malloc(sizeof(double) * (N - delta));
 	origval = (double*) malloc(sizeof(double) * (N - delta));
@@ -796,6 +825,11 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 			binc[j] = b[j] + h[j];
 		}
 
+		if (!finite_array(binc,k)) {
+			bad = 1;
+			break;
+		}
+
 		if (M == 1) {
 			for(j = 0;j < p;++j) {
 				phiinc[j] = binc[1+j];
@@ -941,25 +975,27 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	} else if (it < itmax && it > 0) {
 		retval = 1;
 	}
+	// The accepted parameters are in b and their residuals in at
+	sumb = sosqm(at,N+qd-1);
 	// Residual Variance
 	*var = sumb * 1.0 /(N - p - q - M);
-	//Constant Term
+	//Mean
 	if (M == 1) {
-		temp = 0.0;
-		for (i = 0;i < p;++i) {
-			temp += phiinc[i];
-		}
-		*thetac = b[0] * (1.0 - temp);
+		*thetac = b[0];
 	} else {
 		*thetac = 0.0;
 	}
 	// Parameters Phi and Theta
 	
-	for (i = 0; i < p;++i) {
-		phi[i] = phiinc[i];
+	for (i = 0; i < p; ++i) {
+		phi[i] = b[M+i];
 	}
-	for (i = 0; i < q;++i) {
-		theta[i] = thetainc[i];
+	for (i = 0; i < q; ++i) {
+		theta[i] = b[M+p+i];
+	}
+
+	if (bad || !finite_array(b,k) || !finite_array(var,1)) {
+		retval = 15;
 	}
 
 	for(i = 0; i < k;++i) {
@@ -982,9 +1018,10 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	for(i = 0; i < k*k;++i) {
 		varcovar[i] = varcovar[i] * (*var);
 	}
+	order_varcovar(varcovar,k,M,Atemp);
 
 	for(i = qd-1; i < N+qd-1;++i) {
-		residuals[i-qd+1] = resat[i];
+		residuals[i-qd+1] = at[i];
 	}
 
 
@@ -1015,8 +1052,8 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 		int s,int lps,int deltas,int lqs,double *phis,double *thetas,
 		int M,double *thetac,double *var,double eps,double *varcovar,double *residuals) {
 
-	int retval,i,j,l,k,t,t2,it,Norig,qd,itmax;
-	double lam,vmul,e1,di,eps2,stepsize,temp,tau,hmax,suminc,sumb,temp2;
+	int retval,i,j,l,k,t,t2,it,Norig,qd,itmax,bad;
+	double lam,vmul,e1,di,eps2,stepsize,temp,tau,hmax,suminc,sumb;
 	double *inp,*b,*at,*at0,*x,*phi0,*theta0,*orig,*A,*g,*D,*h,*binc,*Atemp;
 	double *phiincx,*thetaincx,*atinc,*resat,*origval;
 	int *ipiv;
@@ -1036,6 +1073,7 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	qd = q + s*lqs + 20 * (p + s*lps);//15 + deltas*s;
 	hmax = 1;
 	itmax = 200;
+	bad = 0;
 	retval = 0;
 
 	if (qd < (15 + deltas*s)) {
@@ -1343,6 +1381,11 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 			binc[j] = b[j] + h[j];
 		}
 
+		if (!finite_array(binc,k)) {
+			bad = 1;
+			break;
+		}
+
 		phiinc[0] = thetainc[0] = phist1[0] = thetast1[0] = 1.0;
 
 		if (M == 1) {
@@ -1558,19 +1601,13 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	else if (it < itmax && it > 0) {
 		retval = 1;
 	}
+	// The accepted parameters are in b and their residuals in at
+	sumb = sosqm(at, N + qd - 1);
 	// Residual Variance
 	*var = sumb * 1.0 / (N - p - q - lps - lqs - M);
-	//Constant Term
+	//Mean
 	if (M == 1) {
-		temp = 0.0;
-		temp2 = 0.0;
-		for (i = 0; i < p; ++i) {
-			temp -= phiinc[i+1];
-		}
-		for (i = 0; i < lps; ++i) {
-			temp2 -= phisinc[i + 1];
-		}
-		*thetac = b[0] * (1.0 - temp)*(1.0 - temp2) ;
+		*thetac = b[0];
 	}
 	else {
 		*thetac = 0.0;
@@ -1578,25 +1615,20 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	// Parameters Phi and Theta
 
 	for (i = 0; i < p; ++i) {
-		phi[i] = -phiinc[i+1];
+		phi[i] = b[M + i];
 	}
 	for (i = 0; i < q; ++i) {
-		theta[i] = -thetainc[i+1];
+		theta[i] = b[M + p + i];
 	}
-
-	downsample(phisinc, s*lps + 1, s, phist1);
-	downsample(thetasinc, s*lqs + 1, s, thetast1);
-
-	//mdisplay(phist1, 1, lps + 1);
-	//mdisplay(thetast1, 1, lqs + 1);
-
-
 	for (i = 0; i < lps; ++i) {
-		phis[i] = -phist1[i + 1];
+		phis[i] = b[M + p + q + i];
 	}
-
 	for (i = 0; i < lqs; ++i) {
-		thetas[i] = -thetast1[i + 1];
+		thetas[i] = b[M + p + q + lps + i];
+	}
+
+	if (bad || !finite_array(b, k) || !finite_array(var, 1)) {
+		retval = 15;
 	}
 
 	for (i = 0; i < k; ++i) {
@@ -1617,10 +1649,11 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	for (i = 0; i < k*k; ++i) {
 		varcovar[i] = varcovar[i] * (*var);
 	}
+	order_varcovar(varcovar,k,M,Atemp);
 
 
 	for (i = qd - 1; i < N + qd - 1; ++i) {
-		residuals[i - qd + 1] = resat[i];
+		residuals[i - qd + 1] = at[i];
 	}
 	
 	//mdisplay(residuals, 1, N);
diff --git a/src/emle.c b/src/emle.c
index 5b80258..9f8ae71 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1322,6 +1322,8 @@ int css(double *inp, int N, int optmethod, int p, int d, int q, double *phi, dou
 	}
 
 	hessian_fd(&fcss_min, tf, pq, dx, obj->eps, hess);
+	// leave residuals, variance and likelihood of the solution, not of the last difference point
+	FUNCPT_EVAL(&fcss_min, tf, pq);
 	//mdisplay(hess, pq, pq);
 	mtranspose(hess, pq, pq, thess);
 
@@ -1423,7 +1425,7 @@ double fas154(double *b,int pq,void *params) {
 		}
 	}
 
-	iupd = 0;
+	iupd = 1;
 
 	if ((ip == 1 && iq == 0) || (ip == 0 && iq == 0)) {
 		*V = 1.0;
@@ -1587,6 +1589,8 @@ int as154(double *inp, int N, int optmethod, int p, int d, int q, double *phi, d
 	}
 
 	hessian_fd(&as154_min, tf, pq, dx, obj->eps, hess);
+	// leave residuals, variance and likelihood of the solution, not of the last difference point
+	FUNCPT_EVAL(&as154_min, tf, pq);
 	
 	mtranspose(hess, pq, pq, thess);
 
@@ -1870,6 +1874,8 @@ int as154x(double *inp, int N, double *xreg, int optmethod, int p, int d, int q,
 	}
 
 	hessian_fd(&as154_min, tf, pq, dx, obj->eps, hess);
+	// leave residuals, variance and likelihood of the solution, not of the last difference point
+	FUNCPT_EVAL(&as154_min, tf, pq);
 	
 	mtranspose(hess, pq, pq, thess);
 	
@@ -2145,6 +2151,8 @@ int css_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int
 	}
 
 	hessian_fd(&css_min, tf, pq, dx, obj->eps, hess);
+	// leave residuals, variance and likelihood of the solution, not of the last difference point
+	FUNCPT_EVAL(&css_min, tf, pq);
 
 	mtranspose(hess, pq, pq, thess);
 
@@ -2533,6 +2541,8 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 	
 
 	hessian_fd(&css_min, tf, pq, dx, obj->eps, hess);
+	// leave residuals, variance and likelihood of the solution, not of the last difference point
+	FUNCPT_EVAL(&css_min, tf, pq);
 
 	mtranspose(hess, pq, pq, thess);
 
@@ -2671,7 +2681,7 @@ double fas154_seas(double *b, int pq, void *params) {
 	
 	//mdisplay(phi, 1, ir);
 	//mdisplay(theta, 1, ir);
-	iupd = 0;
+	iupd = 1;
 	//mdisplay(b, 1, pq);
 
 	if ((ip == 1 && iq == 0) || (ip == 0 && iq == 0)) {
@@ -2864,6 +2874,8 @@ int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, in
 	//if (obj->M == 1) dx[pq - 1] = sigma;
 
 	hessian_fd(&as154_min, tf, pq, dx, obj->eps, hess);
+	// leave residuals, variance and likelihood of the solution, not of the last difference point
+	FUNCPT_EVAL(&as154_min, tf, pq);
 
 	mtranspose(hess, pq, pq, thess);
 
@@ -3004,7 +3016,7 @@ double fas154x_seas(double *b, int pq, void *params) {
 		}
 	}
 	
-	iupd = 0;
+	iupd = 1;
 
 	if ((ip == 1 && iq == 0) || (ip == 0 && iq == 0)) {
 		*V = 1.0;
-- 
2.43.0


From 461c46bbabb8bb89a959472cb841cfd3234c3d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 36/47] fix: exhaustive auto.arima search refits the selected
 model without the approximation

---
 src/ctsa.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 001cee7..453a7be 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -1021,7 +1021,9 @@ myarima_object search_arima(double *x, int N,int d, int D, int p_max, int q_max,
 
 	//printf("best_ic %g \n",best_ic);
 
-	bestfit = myarima(x,N,bestorder,bestseasonal, bestK, ic, trace, approximation, offset,xreg, r, (method == 0) ? NULL : &method);
+	// The selected model is refitted without the approximation
+
+	bestfit = myarima(x,N,bestorder,bestseasonal, bestK, ic, trace, 0, offset,xreg, r, (method == 0) ? NULL : &method);
 
 	if (approximation) {
 		if (bestfit->ic == DBL_MAX) {
-- 
2.43.0


From 5817ec9760f100502923b136916029eeb87bf8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:51 +0000
Subject: [PATCH 37/47] fix: stationarity check reads only roots that were
 computed

---
 src/talg.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/talg.c b/src/talg.c
index 008abae..9675c53 100644
--- a/src/talg.c
+++ b/src/talg.c
@@ -784,9 +784,16 @@ int archeck(int p, double *ar) {
 
 	//polyroot(double *coeff, int DEGREE, double *ZEROR, double *ZEROI)
 
-	polyroot(coeff,p,zeror,zeroi);
+	// Trailing zero coefficients reduce the degree. No roots are returned on failure
+	if (polyroot(coeff,wmax,zeror,zeroi)) {
+		free(coeff);
+		free(zeror);
+		free(zeroi);
+		free(which);
+		return 0;
+	}
 
-	for(i = 0; i < p;++i) {
+	for(i = 0; i < wmax;++i) {
 		mod = sqrt(pow(zeror[i],2.0) + pow(zeroi[i],2));
 		if (mod < 1.0) {
 			free(coeff);
-- 
2.43.0


From 86c5647cba6bd5a951393b8b1bd2bc66e3ceeb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:06 +0000
Subject: [PATCH 38/47] fix: polynomial roots of monomials and of degree 100
 and above

---
 src/polyroot.c | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/polyroot.c b/src/polyroot.c
index ad89667..5ec6fe7 100644
--- a/src/polyroot.c
+++ b/src/polyroot.c
@@ -481,16 +481,16 @@ int cpoly(double *OPR, double *OPI, int DEGREE, double *ZEROR, double *ZEROI) {
 	int NN,CNT1,CNT2,IDNN2,i;
 	double prt, pit;
 
-	PR = (double*)malloc(sizeof(double)* 100);
-	PI = (double*)malloc(sizeof(double)* 100);
-	HR = (double*)malloc(sizeof(double)* 100);
-	HI = (double*)malloc(sizeof(double)* 100);
-	QPR = (double*)malloc(sizeof(double)* 100);
-	QPI = (double*)malloc(sizeof(double)* 100);
-	QHR = (double*)malloc(sizeof(double)* 100);
-	QHI = (double*)malloc(sizeof(double)* 100);
-	SHR = (double*)malloc(sizeof(double)* 100);
-	SHI = (double*)malloc(sizeof(double)* 100);
+	PR = (double*)malloc(sizeof(double)* (DEGREE + 2));
+	PI = (double*)malloc(sizeof(double)* (DEGREE + 2));
+	HR = (double*)malloc(sizeof(double)* (DEGREE + 2));
+	HI = (double*)malloc(sizeof(double)* (DEGREE + 2));
+	QPR = (double*)malloc(sizeof(double)* (DEGREE + 2));
+	QPI = (double*)malloc(sizeof(double)* (DEGREE + 2));
+	QHR = (double*)malloc(sizeof(double)* (DEGREE + 2));
+	QHI = (double*)malloc(sizeof(double)* (DEGREE + 2));
+	SHR = (double*)malloc(sizeof(double)* (DEGREE + 2));
+	SHI = (double*)malloc(sizeof(double)* (DEGREE + 2));
 
 	mcon(&ETA, &INFIN, &SMALNO, &BASE);
 
@@ -541,9 +541,12 @@ int cpoly(double *OPR, double *OPI, int DEGREE, double *ZEROR, double *ZEROI) {
 	}
 
 	NNITER: if (NN <= 2) {
-				prt = -1.0 * PR[1];
-				pit = -1.0 * PI[1];
-				CDIVID(&prt, &pit, &PR[0], &PI[0], INFIN, &ZEROR[DEGREE - 1], &ZEROI[DEGREE - 1]);
+				// Only zero roots remain when NN is 1
+				if (NN == 2) {
+					prt = -1.0 * PR[1];
+					pit = -1.0 * PI[1];
+					CDIVID(&prt, &pit, &PR[0], &PI[0], INFIN, &ZEROR[DEGREE - 1], &ZEROI[DEGREE - 1]);
+				}
 				free(PR);
 				free(PI);
 				free(HR);
-- 
2.43.0


From 062edae166adc4fda3b7070c537b02f0d95ca08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:47 +0000
Subject: [PATCH 39/47] fix: a fit whose Hessian cannot be computed no longer
 reuses the covariance of an earlier fit

---
 src/emle.c | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index 9f8ae71..a8b44d7 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1321,7 +1321,10 @@ int css(double *inp, int N, int optmethod, int p, int d, int q, double *phi, dou
 		dx[i] = 1.0;
 	}
 
-	hessian_fd(&fcss_min, tf, pq, dx, obj->eps, hess);
+	if (hessian_fd(&fcss_min, tf, pq, dx, obj->eps, hess)) {
+		// no covariance is available, do not keep that of an earlier fit
+		for (i = 0; i < pq*pq; ++i) hess[i] = NAN;
+	}
 	// leave residuals, variance and likelihood of the solution, not of the last difference point
 	FUNCPT_EVAL(&fcss_min, tf, pq);
 	//mdisplay(hess, pq, pq);
@@ -1588,7 +1591,10 @@ int as154(double *inp, int N, int optmethod, int p, int d, int q, double *phi, d
 		invertroot(q,tf+p);
 	}
 
-	hessian_fd(&as154_min, tf, pq, dx, obj->eps, hess);
+	if (hessian_fd(&as154_min, tf, pq, dx, obj->eps, hess)) {
+		// no covariance is available, do not keep that of an earlier fit
+		for (i = 0; i < pq*pq; ++i) hess[i] = NAN;
+	}
 	// leave residuals, variance and likelihood of the solution, not of the last difference point
 	FUNCPT_EVAL(&as154_min, tf, pq);
 	
@@ -1873,7 +1879,10 @@ int as154x(double *inp, int N, double *xreg, int optmethod, int p, int d, int q,
 		dx[pq - ncxreg + i] = sigma[i];
 	}
 
-	hessian_fd(&as154_min, tf, pq, dx, obj->eps, hess);
+	if (hessian_fd(&as154_min, tf, pq, dx, obj->eps, hess)) {
+		// no covariance is available, do not keep that of an earlier fit
+		for (i = 0; i < pq*pq; ++i) hess[i] = NAN;
+	}
 	// leave residuals, variance and likelihood of the solution, not of the last difference point
 	FUNCPT_EVAL(&as154_min, tf, pq);
 	
@@ -2150,7 +2159,10 @@ int css_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int
 		dx[i] = 1.0;
 	}
 
-	hessian_fd(&css_min, tf, pq, dx, obj->eps, hess);
+	if (hessian_fd(&css_min, tf, pq, dx, obj->eps, hess)) {
+		// no covariance is available, do not keep that of an earlier fit
+		for (i = 0; i < pq*pq; ++i) hess[i] = NAN;
+	}
 	// leave residuals, variance and likelihood of the solution, not of the last difference point
 	FUNCPT_EVAL(&css_min, tf, pq);
 
@@ -2540,7 +2552,10 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 	}
 	
 
-	hessian_fd(&css_min, tf, pq, dx, obj->eps, hess);
+	if (hessian_fd(&css_min, tf, pq, dx, obj->eps, hess)) {
+		// no covariance is available, do not keep that of an earlier fit
+		for (i = 0; i < pq*pq; ++i) hess[i] = NAN;
+	}
 	// leave residuals, variance and likelihood of the solution, not of the last difference point
 	FUNCPT_EVAL(&css_min, tf, pq);
 
@@ -2873,7 +2888,10 @@ int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, in
 
 	//if (obj->M == 1) dx[pq - 1] = sigma;
 
-	hessian_fd(&as154_min, tf, pq, dx, obj->eps, hess);
+	if (hessian_fd(&as154_min, tf, pq, dx, obj->eps, hess)) {
+		// no covariance is available, do not keep that of an earlier fit
+		for (i = 0; i < pq*pq; ++i) hess[i] = NAN;
+	}
 	// leave residuals, variance and likelihood of the solution, not of the last difference point
 	FUNCPT_EVAL(&as154_min, tf, pq);
 
-- 
2.43.0


From 2b8715ae5068708d0e8f9052b3a08f865124b64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:20 +0000
Subject: [PATCH 40/47] fix: boxcox checks its input for negative values
 instead of reading an unset flag

---
 src/boxcox.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/boxcox.c b/src/boxcox.c
index ff8f106..6585e9d 100644
--- a/src/boxcox.c
+++ b/src/boxcox.c
@@ -111,6 +111,7 @@ double boxcox(double *x, int N,double *lambda,double *y) {
     }
 
     // Check for negative values
+    cn = checkNegative(x,N);
 
     if (cn == 1) {
         printf("Input vector cannot have negative values. Exiting. \n");
-- 
2.43.0


From f0295c88f9d1b97b3a7d2c6fab10a0430aa9f039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:12 +0000
Subject: [PATCH 41/47] fix: linear solves of size zero do not touch their
 empty arrays

---
 src/matrix.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/matrix.c b/src/matrix.c
index 5ee535c..ed7fff8 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -1279,6 +1279,8 @@ void linsolve(double *A,int N,double *b,int *ipiv,double *x) {
 	int i,j,c1,l;
 	double *y;
 	double sum;
+
+	if (N < 1) return;
 	
 	y = (double*) malloc(sizeof(double) *N);
 	/*
-- 
2.43.0


From 9479caf0389349cd8a3bb741c67b10e40640986a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:31 +0000
Subject: [PATCH 42/47] fix: polynomial root iteration starts from defined
 convergence variables

---
 src/polyroot.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/polyroot.c b/src/polyroot.c
index 5ec6fe7..f63cf86 100644
--- a/src/polyroot.c
+++ b/src/polyroot.c
@@ -286,6 +286,7 @@ static void VRSHFT(int NN, int L3, double *ZR, double *ZI, int *CONV,double *SR,
 	*SR = *ZR;
 	*SI = *ZI;
 	B = 0;
+	OMP = RELSTP = 0.0;
 	*CONV = 0;
 
 
-- 
2.43.0


From f18fc6469fa1a80f72a678e8d61f926afb953e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:41 +0000
Subject: [PATCH 43/47] fix: distribution functions return NaN for NaN
 arguments instead of an unset value

---
 src/dist.c   | 4 ++++
 src/erfunc.c | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/dist.c b/src/dist.c
index 0dfa448..08ce381 100644
--- a/src/dist.c
+++ b/src/dist.c
@@ -468,6 +468,8 @@ double pgamma(double x, double a) {
 		exit(1);
 	}
 	
+	oup = NAN;
+
 	// a -> inf
 	la = 2.0e20;
 	if (a > la) {
@@ -614,6 +616,7 @@ double ibeta_appx(double x, double a , double b) {
 		printf(" The Two Inputs should be nonnegative and real");
 		exit(1);
 	}
+	oup = NAN;
 	abx = (a+b-1) *(1.-x);
 	if ( abx <= 0.8) {
 		c2 = (abx * (3. - x) - (b - 1.) *(1. - x))/2.0;
@@ -656,6 +659,7 @@ double ibeta(double x, double a , double b) {
 		exit(1);
 	}
 	
+	oup = NAN;
 	ctrlint = 0;
 	
 	// Method 1
diff --git a/src/erfunc.c b/src/erfunc.c
index 7aee364..2dec28a 100644
--- a/src/erfunc.c
+++ b/src/erfunc.c
@@ -310,6 +310,7 @@ double erfcinv(double x) {
 	 * implementation.
 	 */ 
 	
+	oup = NAN;
 	xinf = 1.79e308;
 	pi  = 3.1415926535897932384626434;
 	
-- 
2.43.0


From 73ab0d39c460eb43f59223bf8f6b11ad14bc7615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:22 +0000
Subject: [PATCH 44/47] fix: Box-Jenkins fits without parameters do not read an
 empty array

---
 src/boxjenkins.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/boxjenkins.c b/src/boxjenkins.c
index 55ddda3..541bf2d 100644
--- a/src/boxjenkins.c
+++ b/src/boxjenkins.c
@@ -788,7 +788,7 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 		D[i] = sqrt(A[i*k+i]);
 	}
 
-	tau = array_max(D,k);
+	tau = (k > 0) ? array_max(D,k) : 0.0;
 	//printf("TAU %g \n",tau);
 	//mdisplay(x,k,N+qd-1);
 
@@ -1344,7 +1344,7 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 		D[i] = sqrt(A[i*k + i]);
 	}
 
-	tau = array_max(D, k);
+	tau = (k > 0) ? array_max(D, k) : 0.0;
 
 	//printf("TAUMAX %g \n", tau);
 
-- 
2.43.0


From 26748243ef81a986d1bbbdaacb4817d0f2e6978d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:23 +0000
Subject: [PATCH 45/47] fix: auto_arima publishes the selected model's
 criterion instead of leaving ic and lambda unset

---
 src/ctsa.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 453a7be..c368cd8 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -328,8 +328,9 @@ auto_arima_object auto_arima_init(int *pdqmax,int *PDQmax,int s, int r, int N) {
 	// Temporary Init
 	
 	obj->p = obj->d = obj->q = obj->P = obj->D = obj->Q = 0;
-	obj->aic = obj->bic = obj->aicc = 0;
+	obj->aic = obj->bic = obj->aicc = obj->ic = 0;
 	obj->loglik = obj->sigma2 = 0.0;
+	obj->lambda = 1.0;
 	obj->drift = 0;
 	obj->Nused = N;
 
@@ -470,6 +471,14 @@ void auto_arima_exec(auto_arima_object obj, double *inp,double *xreg) {
 		obj->bic = fit->Arima->bic;
 		obj->aicc = fit->Arima->aicc;
 		obj->sigma2 = fit->Arima->sigma2;
+
+		if (!strcmp(obj->information_criteria,"aic")) {
+			obj->ic = obj->aic;
+		} else if (!strcmp(obj->information_criteria,"bic")) {
+			obj->ic = obj->bic;
+		} else {
+			obj->ic = obj->aicc;
+		}
 		
 	} else if (fit->otype == 1) {
 		p = fit->myarima->sarimax->p;
@@ -498,6 +507,7 @@ void auto_arima_exec(auto_arima_object obj, double *inp,double *xreg) {
 		obj->bic = fit->myarima->bic;
 		obj->aicc = fit->myarima->aicc;
 		obj->sigma2 = fit->myarima->sigma2;
+		obj->ic = fit->myarima->ic;
 	} else {
 		// no model could be selected
 		p = d = q = P = D = Q = s = M = 0;
@@ -505,7 +515,7 @@ void auto_arima_exec(auto_arima_object obj, double *inp,double *xreg) {
 		retval = 0;
 		obj->mean = 0.0;
 		obj->var = 1.0;
-		obj->loglik = obj->sigma2 = obj->aic = obj->bic = obj->aicc = 0.0;
+		obj->loglik = obj->sigma2 = obj->aic = obj->bic = obj->aicc = obj->ic = 0.0;
 		obj->drift = 0;
 		for(i = 0; i < N; ++i) {
 			obj->params[i] = 0.0;
-- 
2.43.0


From 4f94990eb0351e0e60863f53981f796dccd9e9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 46/47] fix: eigensystem stops when the QL iteration does not
 converge instead of looping forever

---
 src/matrix.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/matrix.c b/src/matrix.c
index ed7fff8..dd43037 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -1623,6 +1623,7 @@ static void tqli(double *d, int N, double *e, double *z) {
 			if (m != l) {
 				if (iter++ == 30) {
 					printf("Too many iterations in tqli");
+					return;
 				}
 				g = (d[l + 1] - d[l]) / (2.0*e[l]);
 				r = pythag(g, 1.0);
-- 
2.43.0


From 4d4969947ee7d138174b1f6829f1121de04c63fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:27 +0000
Subject: [PATCH 47/47] fix: a regression whose normal equations are singular
 publishes NaN instead of uninitialised coefficients

---
 src/regression.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/regression.c b/src/regression.c
index e78c4a5..0313105 100644
--- a/src/regression.c
+++ b/src/regression.c
@@ -286,7 +286,12 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 			*rank = lls_qr(xxt, yxt, p, p, b);
 		}
 		else if (!strcmp(llsmethod, "normal")) {
-			lls_normal(xxt, yxt, p, p, b);
+			if (lls_normal(xxt, yxt, p, p, b) != 0) {
+				// singular design : no coefficients were computed
+				for (i = 0; i < p; ++i) {
+					b[i] = NAN;
+				}
+			}
 			printf("Warning - This method will not calculate the rank of the regression. Use method qr instead. \n");
 		}
 		else if (!strcmp(llsmethod, "svd")) {
-- 
2.43.0

