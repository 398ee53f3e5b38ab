From 127be2b6efb27efa1a0766af4d3c6ef496d10139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:57 +0000
Subject: [PATCH 01/15] fix: Framer::setSource starts again from the beginning
 of the new source

---
 dsp/signalconditioning/Framer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsp/signalconditioning/Framer.cpp b/dsp/signalconditioning/Framer.cpp
index 5281046..591fce0 100644
--- a/dsp/signalconditioning/Framer.cpp
+++ b/dsp/signalconditioning/Framer.cpp
@@ -94,6 +94,8 @@ void Framer::setSource(double *src, int64_t length)
     m_srcBuffer = src;
     m_sampleLen = length;
 
+    resetCounters();
+
     int64_t maxFrames = length / int64_t(m_stepSize);
     if (maxFrames * int64_t(m_stepSize) < length) {
         ++maxFrames;
-- 
2.43.0


From c320568902443b8e9a04ccd014a8b1b5dcfc79b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:57 +0000
Subject: [PATCH 02/15] fix: Framer::getFrame past the end of the source
 returns zeros rather than writing before the frame

---
 dsp/signalconditioning/Framer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsp/signalconditioning/Framer.cpp b/dsp/signalconditioning/Framer.cpp
index 591fce0..f50e0e2 100644
--- a/dsp/signalconditioning/Framer.cpp
+++ b/dsp/signalconditioning/Framer.cpp
@@ -61,7 +61,10 @@ void Framer::getFrame(double *dst)
 
     } else { // m_srcIndex is within m_frameLength of m_sampleLen
 
-        int rem = int(m_sampleLen - m_srcIndex);
+        int rem = 0;
+        if (m_srcIndex < m_sampleLen) {
+            rem = int(m_sampleLen - m_srcIndex);
+        }
         int zero = m_frameLength - rem;
 
         for (int i = 0; i < rem; i++) {
-- 
2.43.0


From 56b89a553e43f221a2982011f20e0f5bda196991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:33 +0000
Subject: [PATCH 03/15] fix: Filter output history buffer was one element too
 short for order 0

---
 dsp/signalconditioning/Filter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/signalconditioning/Filter.cpp b/dsp/signalconditioning/Filter.cpp
index b737860..7322d4b 100644
--- a/dsp/signalconditioning/Filter.cpp
+++ b/dsp/signalconditioning/Filter.cpp
@@ -50,7 +50,7 @@ Filter::Filter(Parameters params)
     m_offb = m_offmax;
 
     if (!m_fir) {
-        m_bufa.resize(m_order + m_offmax);
+        m_bufa.resize(m_order + m_offmax + 1);
     }
 
     m_bufb.resize(m_sz + m_offmax);
-- 
2.43.0


From ea02db79d2954575737fd726bce4faafd9deebfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:33 +0000
Subject: [PATCH 04/15] fix: FiltFilt::process results depended on earlier
 calls

---
 dsp/signalconditioning/FiltFilt.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsp/signalconditioning/FiltFilt.cpp b/dsp/signalconditioning/FiltFilt.cpp
index 3f011ca..4c69e25 100644
--- a/dsp/signalconditioning/FiltFilt.cpp
+++ b/dsp/signalconditioning/FiltFilt.cpp
@@ -69,6 +69,9 @@ void FiltFilt::process(const double *const QM_R__ src,
         filtScratchIn[ i + nFact ] = src[ i ];
     }
     
+    // start each call from the initial state, independent of earlier calls
+    m_filter.reset();
+
     ////////////////////////////////
     // Do 0Ph filtering
     m_filter.process(filtScratchIn, filtScratchOut, nExt);
-- 
2.43.0


From 236205958037589409d44a0ef433bf316b48b761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:33 +0000
Subject: [PATCH 05/15] fix: DecimatorB divided by the factor before validating
 it

---
 dsp/rateconversion/DecimatorB.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsp/rateconversion/DecimatorB.cpp b/dsp/rateconversion/DecimatorB.cpp
index b6cbe3e..2e24ca1 100644
--- a/dsp/rateconversion/DecimatorB.cpp
+++ b/dsp/rateconversion/DecimatorB.cpp
@@ -40,7 +40,7 @@ void DecimatorB::initialise(int inLength, int decFactor)
 {
     m_inputLength = inLength;
     m_decFactor = decFactor;
-    m_outputLength = m_inputLength / m_decFactor;
+    m_outputLength = 0;
 
     if (m_decFactor < 2 || !MathUtilities::isPowerOfTwo(m_decFactor)) {
         std::cerr << "ERROR: DecimatorB::initialise: Decimation factor must be a power of 2 and at least 2 (was: " << m_decFactor << ")" << std::endl;
@@ -54,6 +54,8 @@ void DecimatorB::initialise(int inLength, int decFactor)
         return;
     }        
 
+    m_outputLength = m_inputLength / m_decFactor;
+
     m_aaBuffer = new double[m_inputLength];
     m_tmpBuffer = new double[m_inputLength];
 
-- 
2.43.0


From e2a346bc95a0f0ec9d30dbb59035ed027d9357c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:33 +0000
Subject: [PATCH 06/15] fix: ConstantQ::process wrote one element past the end
 of its output

---
 dsp/chromagram/ConstantQ.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dsp/chromagram/ConstantQ.cpp b/dsp/chromagram/ConstantQ.cpp
index d268756..63ffe0f 100644
--- a/dsp/chromagram/ConstantQ.cpp
+++ b/dsp/chromagram/ConstantQ.cpp
@@ -168,7 +168,6 @@ double* ConstantQ::process( const double* fftdata )
 
     for (int row=0; row < 2 * m_uK; row++) {
         m_CQdata[ row ] = 0;
-        m_CQdata[ row+1 ] = 0;
     }
     const int *fftbin = &(sk->is[0]);
     const int *cqbin = &(sk->js[0]);
-- 
2.43.0


From 90a55bf35d0847165749452a1a648156c62345a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:33 +0000
Subject: [PATCH 07/15] fix: DFProcess median window for sequences shorter than
 the window read outside the data and left values unset

---
 dsp/signalconditioning/DFProcess.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsp/signalconditioning/DFProcess.cpp b/dsp/signalconditioning/DFProcess.cpp
index 996eb1e..b4ca163 100644
--- a/dsp/signalconditioning/DFProcess.cpp
+++ b/dsp/signalconditioning/DFProcess.cpp
@@ -112,7 +112,7 @@ void DFProcess::medianFilter(double *src, double *dst)
             break;
         }
 
-        k = i + m_winPost + 1;
+        k = std::min(i + m_winPost + 1, m_length);
 
         for( j = 0; j < k; j++) {
             y[ j ] = src[ j ];
@@ -137,13 +137,13 @@ void DFProcess::medianFilter(double *src, double *dst)
         index++;
     }
 
-    for( i = std::max( m_length - m_winPost, 1); i < m_length; i++) {
+    for( i = index; i < m_length; i++) {
         
         if (index >= m_length) {
             break;
         }
 
-        k = std::max( i - m_winPre, 1);
+        k = std::max( i - m_winPre, 0);
 
         l = 0;
         for( j = k; j < m_length; j++) {
-- 
2.43.0


From 83ebd8f19c1f3df1a7beaa4960facb7c91ca5b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:33 +0000
Subject: [PATCH 08/15] fix: BlockAllocator freed live blocks when growing
 beyond 1024 of them

---
 thread/BlockAllocator.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/thread/BlockAllocator.h b/thread/BlockAllocator.h
index 6b4c9f5..7d758dd 100644
--- a/thread/BlockAllocator.h
+++ b/thread/BlockAllocator.h
@@ -35,6 +35,8 @@ THE SOFTWARE.
 #define QM_DSP_BLOCK_ALLOCATOR_H
 
 #include <cstdlib>
+#include <deque>
+#include <vector>
 
 /**
  * BlockAllocator is a simple allocator for fixed-size (usually small)
@@ -174,11 +176,8 @@ private:
 
     struct Blocks
     {
-        std::vector<Block> data;
-
-        Blocks() {
-            data.reserve(1024);
-        }
+        // a deque never copies its existing elements when it grows
+        std::deque<Block> data;
     };
 
     const int m_sz;
-- 
2.43.0


From ba5e67bd72478c2281734fd9dfdb4860ae82e72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:07 +0000
Subject: [PATCH 09/15] fix: TempoTrackV2::calculateBeats read before its
 cumulative score for input shorter than a beat period

---
 dsp/tempotracking/TempoTrackV2.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsp/tempotracking/TempoTrackV2.cpp b/dsp/tempotracking/TempoTrackV2.cpp
index 72812b2..bd1f5a0 100644
--- a/dsp/tempotracking/TempoTrackV2.cpp
+++ b/dsp/tempotracking/TempoTrackV2.cpp
@@ -465,12 +465,13 @@ TempoTrackV2::calculateBeats(const vector<double> &df,
 
     // STARTING POINT, I.E. LAST BEAT.. PICK A STRONG POINT IN cumscore VECTOR
     d_vec_t tmp_vec;
-    for (int i = df_len - beat_period[beat_period.size()-1] ; i < df_len; i++) {
+    int tailstart = df_len - beat_period[beat_period.size()-1] ;
+    if (tailstart < 0) tailstart = 0; // input shorter than a beat period
+    for (int i = tailstart; i < df_len; i++) {
         tmp_vec.push_back(cumscore[i]);
     }
 
-    int startpoint = get_max_ind(tmp_vec) +
-        df_len - beat_period[beat_period.size()-1] ;
+    int startpoint = get_max_ind(tmp_vec) + tailstart;
 
     // can happen if no results obtained earlier (e.g. input too short)
     if (startpoint >= int(backlink.size())) {
-- 
2.43.0


From 9328264886a1ca5995e354d35a13ad71b3ade1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:40 +0000
Subject: [PATCH 10/15] fix: DCT::forward is not affected by the residue of an
 earlier inverse

---
 dsp/transforms/DCT.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dsp/transforms/DCT.cpp b/dsp/transforms/DCT.cpp
index 1ce1abe..83fafea 100644
--- a/dsp/transforms/DCT.cpp
+++ b/dsp/transforms/DCT.cpp
@@ -39,6 +39,10 @@ DCT::forward(const double *in, double *out)
         m_time2[i*2 + 1] = in[i];
         m_time2[m_n*4 - i*2 - 1] = in[i];
     }
+    // the even positions may hold residue left by a preceding inverse
+    for (int i = 0; i < m_n*2; ++i) {
+        m_time2[i*2] = 0.0;
+    }
 
     m_fft.forward(m_time2.data(), m_freq2r.data(), m_freq2i.data());
 
-- 
2.43.0


From 92894702ee64c2dc1a632588baad47d0ee8b723a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:22 +0000
Subject: [PATCH 11/15] fix: TCSGram frame duration is zero until it is set

---
 dsp/tonal/TCSgram.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsp/tonal/TCSgram.cpp b/dsp/tonal/TCSgram.cpp
index 4806096..c0e7af2 100644
--- a/dsp/tonal/TCSgram.cpp
+++ b/dsp/tonal/TCSgram.cpp
@@ -23,7 +23,8 @@
 #include "maths/MathUtilities.h"
 
 TCSGram::TCSGram() :
-    m_uNumBins(6)
+    m_uNumBins(6),
+    m_dFrameDurationMS(0)
 {
 }
 
-- 
2.43.0


From 95c2ad939c5769ce394048a8fb5f5fbe31692792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:13 +0000
Subject: [PATCH 12/15] fix: ConstantQ::process on interleaved data used the
 bin below the one intended

---
 dsp/chromagram/ConstantQ.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsp/chromagram/ConstantQ.cpp b/dsp/chromagram/ConstantQ.cpp
index 63ffe0f..d73af1a 100644
--- a/dsp/chromagram/ConstantQ.cpp
+++ b/dsp/chromagram/ConstantQ.cpp
@@ -181,8 +181,8 @@ double* ConstantQ::process( const double* fftdata )
         if (col == 0) continue;
         const double & r1 = real[i];
         const double & i1 = imag[i];
-        const double & r2 = fftdata[ (2*m_FFTLength) - 2*col - 2 ];
-        const double & i2 = fftdata[ (2*m_FFTLength) - 2*col - 2 + 1 ];
+        const double & r2 = fftdata[ (2*m_FFTLength) - 2*col ];
+        const double & i2 = fftdata[ (2*m_FFTLength) - 2*col + 1 ];
         // add the multiplication
         m_CQdata[ 2*row  ] += (r1*r2 - i1*i2);
         m_CQdata[ 2*row+1] += (r1*i2 + i1*r2);
-- 
2.43.0


From bf3eb6f76452c311859d47d0666a32f7c256c980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:20 +0000
Subject: [PATCH 13/15] fix: GetKeyMode wrote outside its buffers when an
 averaging length was zero

---
 dsp/keydetection/GetKeyMode.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dsp/keydetection/GetKeyMode.cpp b/dsp/keydetection/GetKeyMode.cpp
index 879f8a8..79819ef 100644
--- a/dsp/keydetection/GetKeyMode.cpp
+++ b/dsp/keydetection/GetKeyMode.cpp
@@ -100,6 +100,10 @@ GetKeyMode::GetKeyMode(Config config) :
         (m_hpcpAverage * chromaConfig.FS / m_chromaFrameSize);
     m_medianWinSize = (int)ceil
         (m_medianAverage * chromaConfig.FS / m_chromaFrameSize);
+
+    // A zero length means no averaging: only the current frame is used
+    if (m_chromaBufferSize < 1) m_chromaBufferSize = 1;
+    if (m_medianWinSize < 1) m_medianWinSize = 1;
     
     // Reset counters
     m_bufferIndex = 0;
-- 
2.43.0


From eb41d95879321b1385d718d2c9953b1b98239421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:14 +0000
Subject: [PATCH 14/15] fix: pca_project did not take the components in order
 of variance

---
 maths/pca/pca.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/maths/pca/pca.c b/maths/pca/pca.c
index fa8d1de..d01d09f 100644
--- a/maths/pca/pca.c
+++ b/maths/pca/pca.c
@@ -248,6 +248,35 @@ void tqli(double* d, double* e, int n, double** z)
     }
 }
 
+/* Sort eigenvalues into ascending order, along with the eigenvectors in
+   the corresponding columns of z (tqli leaves them in no particular order) */
+static void sort_eigen(double* d, int n, double** z)
+{
+    int i, j, k;
+    double t;
+
+    for (i = 0; i < n; i++)
+    {
+        k = i;
+        for (j = i+1; j < n; j++)
+        {
+            if (d[j] < d[k]) k = j;
+        }
+        if (k != i)
+        {
+            t = d[i];
+            d[i] = d[k];
+            d[k] = t;
+            for (j = 0; j < n; j++)
+            {
+                t = z[j][i];
+                z[j][i] = z[j][k];
+                z[j][k] = t;
+            }
+        }
+    }
+}
+
 /* In place projection onto basis vectors */
 void pca_project(double** data, int n, int m, int ncomponents)
 {
@@ -277,6 +306,7 @@ void pca_project(double** data, int n, int m, int ncomponents)
     //}
     tred2(symmat, m, evals, interm);  /* Triangular decomposition */
     tqli(evals, interm, m, symmat);   /* Reduction of sym. trid. matrix */
+    sort_eigen(evals, m, symmat);     /* Ascending order of eigenvalue */
 /* evals now contains the eigenvalues,
    columns of symmat now contain the associated eigenvectors. */   
 
-- 
2.43.0


From cd8d5c73f069e6949ee6406a065c1d6df724be70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:14 +0000
Subject: [PATCH 15/15] fix: HMM training left rows of probabilities not
 summing to one

A state that is never occupied, or only to an underflowing extent, got a
zero or badly scaled transition row and an undefined mean; and an infinite
likelihood was not recognised, so the model was re-estimated from
posteriors that are not numbers.
---
 hmm/hmm.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/hmm/hmm.c b/hmm/hmm.c
index e00e829..b940e13 100644
--- a/hmm/hmm.c
+++ b/hmm/hmm.c
@@ -201,7 +201,7 @@ void hmm_train(double** x, int T, model_t* model)
         }
         forward_backwards(xi, gamma, &loglik, &loglik1, &loglik2,
                           iter, N, T, p0, a, b);
-        if (ISNAN(loglik)) {
+        if (ISNAN(loglik) || ISINF(loglik)) {
             foundnan = 1;
             continue;
         }
@@ -235,6 +235,7 @@ void baum_welch(double* p0, double** a, double** mu, double** cov,
                 int N, int T, int L, double** x, double*** xi, double** gamma)
 {
     int i, j, t;
+    double sum_xi;
         
     double* sum_gamma = (double*) malloc(N*sizeof(double));
         
@@ -252,15 +253,21 @@ void baum_welch(double* p0, double** a, double** mu, double** cov,
     }
         
     for (i = 0; i < N; i++) {
+        sum_xi = 0;
         for (j = 0; j < N; j++) {
-            a[i][j] = 0;
-            if (sum_gamma[i] == 0.) {
-                continue;
+            for (t = 0; t < T-1; t++) {
+                sum_xi += xi[t][i][j];
             }
+        }
+        if (sum_xi == 0.) {
+            continue; /* state never left: nothing to re-estimate from */
+        }
+        for (j = 0; j < N; j++) {
+            a[i][j] = 0;
             for (t = 0; t < T-1; t++) {
                 a[i][j] += xi[t][i][j];
             }
-            a[i][j] /= sum_gamma[i];        
+            a[i][j] /= sum_xi;
         }
     }
         
@@ -317,6 +324,9 @@ void baum_welch(double* p0, double** a, double** mu, double** cov,
         
     /* re-estimate means */
     for (j = 0; j < N; j++) {
+        if (sum_gamma[j] == 0.) {
+            continue;
+        }
         for (d = 0; d < L; d++) {
             mu[j][d] = 0;
             for (t = 0; t < T; t++)
-- 
2.43.0

