From 55bd6dcbc2f01379850ebd59155df3c76c48e084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:57 +0000
Subject: [PATCH 01/36] fix: a later envelope for the same parameter replaces
 the earlier one

DSP::withEnvelope() is documented to use only the last envelope attached for a
parameter, but unordered_map::emplace() keeps the first.
---
 include/dsp/hart_dsp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index 8608d93..417d2bb 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -202,7 +202,7 @@ public:
         if (! supportsEnvelopeFor(paramId))
             HART_THROW_OR_RETURN (hart::UnsupportedError, std::string ("DSP doesn't support envelopes for param ID: ") + std::to_string (paramId), *this);
 
-        m_envelopes.emplace (paramId, envelope.copy());
+        m_envelopes[paramId] = envelope.copy();
         return *this;
     }
 
-- 
2.43.0


From ba012c907dd1cffc049dce8ecf99716dba2bf621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:34 +0000
Subject: [PATCH 02/36] fix: DSP::withEnvelope() can be called with a temporary
 envelope

The rvalue overload instantiated the abstract Envelope class, so any use of it
failed to compile.
---
 include/dsp/hart_dsp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index 417d2bb..95c2f52 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -185,7 +185,7 @@ public:
         if (! supportsEnvelopeFor(paramId))
             HART_THROW_OR_RETURN (hart::UnsupportedError, std::string ("DSP doesn't support envelopes for param ID: ") + std::to_string (paramId), *this);
 
-        m_envelopes.emplace (paramId, hart::make_unique<Envelope> (std::move (envelope)));
+        m_envelopes[paramId] = envelope.copy();  // Envelope is abstract and can't be move-constructed
         return *this;
     }
 
-- 
2.43.0


From e8f31434282fe7da618948bfe68de50f644db2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:09 +0000
Subject: [PATCH 03/36] fix: assigning a DSP replaces the envelopes it had
 before

---
 include/dsp/hart_dsp.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index 95c2f52..fcfc633 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -156,6 +156,8 @@ public:
         if (this == &other)
             return *this;
 
+        m_envelopes.clear();
+
         for (auto& pair : other.m_envelopes)
             m_envelopes.emplace (pair.first, pair.second->copy());
 
-- 
2.43.0


From e7ac04c3811b71f607dff443a71e8ea68391bcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:44 +0000
Subject: [PATCH 04/36] fix: prepare attached envelopes with the sample rate of
 the test

Envelopes were never prepared, so they always ran as if at 44100 Hz.
---
 include/dsp/hart_dsp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index fcfc633..63474e0 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -232,6 +232,7 @@ public:
         {
             const int paramId = item.first;
             m_envelopeBuffers.emplace (paramId, std::vector<double> (maxBlockSizeFrames));
+            item.second->prepare (sampleRateHz, maxBlockSizeFrames);
         }
 
         hassert (m_envelopes.size() == m_envelopeBuffers.size());
-- 
2.43.0


From f1f0eb4fee0cee019e1c1d81a5b4735e7dbcae79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:23 +0000
Subject: [PATCH 05/36] fix: rewind attached envelopes when an effect gets
 reset for a new test

A DSP re-used for another test continued its automation where the previous
test had stopped.
---
 include/dsp/hart_dsp.hpp        | 11 +++++++++++
 include/hart_process_audio.hpp  |  2 +-
 include/signals/hart_signal.hpp |  2 +-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index 63474e0..da19f22 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -279,6 +279,17 @@ public:
         process (input, output, m_envelopeBuffers);
     }
 
+    /// @brief Resets the effect and all the attached envelopes to initial state
+    /// @details This method is intended to be called by DSP hosts like @ref hart::AudioTestBuilder or @ref hart::Signal.
+    /// @attention If you're not making a custom host, you probably don't need to call this method.
+    void resetWithEnvelopes()
+    {
+        reset();
+
+        for (auto& item : m_envelopes)
+            item.second->reset();
+    }
+
     /// @brief Helper for template resolution
     /// @private
     using SampleTypePublicAlias = SampleType;
diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 162b0dc..83b973f 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -352,7 +352,7 @@ public:
         }
 
         // TODO: Ckeck supportsChannelLayout() here
-        m_processor->reset();
+        m_processor->resetWithEnvelopes();
         m_processor->prepareWithEnvelopes (m_sampleRateHz, m_numInputChannels, m_numOutputChannels, m_blockSizeFrames);
 
         for (const ParamValue& paramValue : paramValues)
diff --git a/include/signals/hart_signal.hpp b/include/signals/hart_signal.hpp
index f36a981..33f7b16 100644
--- a/include/signals/hart_signal.hpp
+++ b/include/signals/hart_signal.hpp
@@ -236,7 +236,7 @@ public:
         reset();
 
         for (auto& dsp : dspChain)
-            dsp->reset();
+            dsp->resetWithEnvelopes();
     }
 
     /// @brief Makes a text representation of this signal and its entire signal chain for test failure outputs.
-- 
2.43.0


From 9c7ae92e9e79105e69974e1d035868f9d4205a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:59 +0000
Subject: [PATCH 06/36] fix: SegmentedEnvelope::reset() restores the start
 value of the first segment

---
 include/envelopes/hart_segmentedenvelope.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/envelopes/hart_segmentedenvelope.hpp b/include/envelopes/hart_segmentedenvelope.hpp
index 0e56502..9aed5b1 100644
--- a/include/envelopes/hart_segmentedenvelope.hpp
+++ b/include/envelopes/hart_segmentedenvelope.hpp
@@ -62,6 +62,7 @@ public:
     {
         m_currentTimeSeconds = 0.0;
         m_currentSegmentIndex = 0;
+        m_beginValue = m_resetValue;
         m_currentValue = m_resetValue;
     }
 
-- 
2.43.0


From c8f7f8ad5e41266e702c02017f7c5ff75cd19287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:33 +0000
Subject: [PATCH 07/36] fix: SegmentedEnvelope without segments holds its start
 value

It called back() on an empty vector.
---
 include/envelopes/hart_segmentedenvelope.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/envelopes/hart_segmentedenvelope.hpp b/include/envelopes/hart_segmentedenvelope.hpp
index 9aed5b1..7136da9 100644
--- a/include/envelopes/hart_segmentedenvelope.hpp
+++ b/include/envelopes/hart_segmentedenvelope.hpp
@@ -189,7 +189,7 @@ private:
         }
 
         if (m_currentSegmentIndex >= m_segments.size())
-            m_currentValue = m_segments.back().targetValue;
+            m_currentValue = m_endValue;
     }
 };
 
-- 
2.43.0


From 1158b7bc410bed32116927f27afe377c823d52fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:03 +0000
Subject: [PATCH 08/36] fix: a looping WavFile wraps around inside of a block

The read position of the current block kept growing past the end of the wav
data after the loop point.
---
 include/signals/hart_wavfile.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/signals/hart_wavfile.hpp b/include/signals/hart_wavfile.hpp
index 1d924f2..7f1419d 100644
--- a/include/signals/hart_wavfile.hpp
+++ b/include/signals/hart_wavfile.hpp
@@ -95,15 +95,13 @@ public:
         // TODO: Add resampling
         const size_t numFrames = output.getNumFrames();
         size_t frameInOutputBuffer = 0;
-        size_t frameInWavBuffer = m_wavOffsetFrames;
 
         while (m_wavOffsetFrames < m_wavFrames->getNumFrames() && frameInOutputBuffer < numFrames)
         {
             for (size_t channel = 0; channel < m_wavNumChannels; ++channel)
-                output[channel][frameInOutputBuffer] = (*m_wavFrames)[channel][frameInWavBuffer];
+                output[channel][frameInOutputBuffer] = (*m_wavFrames)[channel][m_wavOffsetFrames];
 
             ++frameInOutputBuffer;
-            ++frameInWavBuffer;
             ++m_wavOffsetFrames;
 
             if (m_loop == Loop::yes)
-- 
2.43.0


From 5658931ae12e41a965bcb603d0e878e074198c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:36 +0000
Subject: [PATCH 09/36] fix: WavFile renders fewer channels than there are in
 the file

It claims to support this in supportsNumChannels(), but prepare() refused it.
---
 include/signals/hart_wavfile.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/signals/hart_wavfile.hpp b/include/signals/hart_wavfile.hpp
index 7f1419d..374a9df 100644
--- a/include/signals/hart_wavfile.hpp
+++ b/include/signals/hart_wavfile.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>  // min()
 #include <memory>
 #include <string>
 
@@ -82,7 +83,7 @@ public:
     void prepare (double sampleRateHz, size_t numOutputChannels, size_t /*maxBlockSizeFrames*/) override
     {
         // There are a few ovbvious cases where channel number mismatch can be gracefully resolved - perhaps in the future
-        if (numOutputChannels != m_wavNumChannels)
+        if (! supportsNumChannels (numOutputChannels))
             HART_THROW_OR_RETURN_VOID (hart::ChannelLayoutError, std::string ("Unexpected channel number"));
 
         if (floatsNotEqual (sampleRateHz, m_wavSampleRateHz))
@@ -94,11 +95,12 @@ public:
         // TODO: Add support for number of channels different from the wav file
         // TODO: Add resampling
         const size_t numFrames = output.getNumFrames();
+        const size_t numChannels = std::min (output.getNumChannels(), m_wavNumChannels);
         size_t frameInOutputBuffer = 0;
 
         while (m_wavOffsetFrames < m_wavFrames->getNumFrames() && frameInOutputBuffer < numFrames)
         {
-            for (size_t channel = 0; channel < m_wavNumChannels; ++channel)
+            for (size_t channel = 0; channel < numChannels; ++channel)
                 output[channel][frameInOutputBuffer] = (*m_wavFrames)[channel][m_wavOffsetFrames];
 
             ++frameInOutputBuffer;
@@ -112,7 +114,7 @@ public:
         {
             hassert (m_loop == Loop::no);
 
-            for (size_t channel = 0; channel < m_wavNumChannels; ++channel)
+            for (size_t channel = 0; channel < numChannels; ++channel)
                 output[channel][frameInOutputBuffer] = (SampleType) 0;
 
             ++frameInOutputBuffer;
-- 
2.43.0


From bb3d48b4e8ab27fd139df3d1a6c56be4ee4c4d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 10/36] fix: WavFile stays valid and empty when its file can't
 be read in a build without exceptions

---
 include/signals/hart_wavfile.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/signals/hart_wavfile.hpp b/include/signals/hart_wavfile.hpp
index 374a9df..6940200 100644
--- a/include/signals/hart_wavfile.hpp
+++ b/include/signals/hart_wavfile.hpp
@@ -136,10 +136,10 @@ public:
 private:
     const std::string m_filePath;
     const Loop m_loop;
-    size_t m_wavNumChannels;
-    double m_wavSampleRateHz;
+    size_t m_wavNumChannels = 0;
+    double m_wavSampleRateHz = 0.0;
     size_t m_wavOffsetFrames = 0;
-    std::shared_ptr<AudioBuffer<float>> m_wavFrames;
+    std::shared_ptr<AudioBuffer<float>> m_wavFrames = std::make_shared<AudioBuffer<float>>();
 };
 
 }  // namespace hart
-- 
2.43.0


From 5f054388b0c27019c817396c58e53cb05449b413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 11/36] fix: initialize SineWave's sample rate

Copying a SineWave before prepare() read an uninitialized member.
---
 include/signals/hart_sinewave.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/signals/hart_sinewave.hpp b/include/signals/hart_sinewave.hpp
index 6c13f28..f2621f6 100644
--- a/include/signals/hart_sinewave.hpp
+++ b/include/signals/hart_sinewave.hpp
@@ -71,7 +71,7 @@ private:
     const double m_frequencyHz;
     const double m_initialPhaseRadians;
     double m_phaseRadians;
-    double m_sampleRateHz;
+    double m_sampleRateHz = 0.0;
 
     void clampPhase()
     {
-- 
2.43.0


From 4bd5d94830f46ded0153678615c1df6fa8cc82c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:17 +0000
Subject: [PATCH 12/36] fix: SineSweep shorter than half a frame is silent

Its duration rounds to zero frames, which the frame counter never hits.
---
 include/signals/hart_sine_sweep.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/signals/hart_sine_sweep.hpp b/include/signals/hart_sine_sweep.hpp
index cc2d727..c1dd10d 100644
--- a/include/signals/hart_sine_sweep.hpp
+++ b/include/signals/hart_sine_sweep.hpp
@@ -134,7 +134,7 @@ public:
 
     void renderNextBlock (AudioBuffer<SampleType>& output) override
     {
-        if (m_generateSilence)
+        if (m_generateSilence || m_durationFrames == 0)
         {
             fillWithSilence (output);
             return;
-- 
2.43.0


From eaa9a07998856a357567f4991a6e7b206283e0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:48 +0000
Subject: [PATCH 13/36] fix: a failed expectation doesn't keep other checks
 from seeing the block

processChecks() returned at the first failed check, so the checks after it
weren't evaluated on that block (or not at all for the full signal ones), and
EqualsTo's reference signal ran out of sync with the audio.
---
 include/hart_process_audio.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 83b973f..e26d74b 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -484,6 +484,8 @@ private:
 
     bool processChecks (std::vector<Check>& checksGroup, AudioBuffer<SampleType>& outputBlock)
     {
+        bool allChecksPassed = true;
+
         for (auto& check : checksGroup)
         {
             if (check.shouldSkip)
@@ -533,11 +535,11 @@ private:
                 // TODO: FIXME: Do not throw indife of per-block loop if requested to write input or output to a wav file, throw after the loop instead
                 // TODO: Stop processing if expect has failed and outputting to a file wasn't requested
                 // TODO: Skip all checks if check failed, but asked to output a wav file
-                return false;
+                allChecksPassed = false;
             }
         }
 
-        return true;
+        return allChecksPassed;
     }
 
     void appendFailureDetails (std::stringstream& stream, const MatcherFailureDetails& details, AudioBuffer<SampleType>& observedAudioBlock)
-- 
2.43.0


From 118f006571f1687697eeece6f3742bfc898f21f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:21 +0000
Subject: [PATCH 14/36] fix: timestamps in failure reports of full signal
 checks

They were off by the whole duration of the signal.
---
 include/hart_process_audio.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index e26d74b..a2eb76f 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -391,6 +391,7 @@ public:
             offsetFrames += blockSizeFrames;
         }
 
+        offsetFrames = 0;  // Full signal starts from the very first frame
         const bool allChecksPassed = processChecks (fullSignalChecks, fullOutputBuffer);
         atLeastOneCheckFailed |= ! allChecksPassed;
 
-- 
2.43.0


From d89e39e205d4d38e30a31be31cd5d6ad322d6620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 15/36] fix: prepare full signal checks for the length of the
 full signal

They get the whole signal as one block, which is usually longer than the block
size they were prepared with, so reference signals with automated effects failed
their sanity checks.
---
 include/hart_process_audio.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index a2eb76f..b1d8c13 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -346,7 +346,7 @@ public:
 
         for (auto& check : fullSignalChecks)
         {
-            check.matcher->prepare (m_sampleRateHz, m_numOutputChannels, m_blockSizeFrames);
+            check.matcher->prepare (m_sampleRateHz, m_numOutputChannels, m_durationFrames);
             check.matcher->reset();
             check.shouldSkip = false;
         }
-- 
2.43.0


From 873857c70da56b4193150054ea2f5c4265db9a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:27 +0000
Subject: [PATCH 16/36] fix: matchers report a mismatch for NaN samples

All comparisons with NaN are false, so EqualsTo, PeaksBelow and PeaksAt accepted it.
---
 include/matchers/hart_equalsto.hpp   | 2 +-
 include/matchers/hart_peaksat.hpp    | 6 +++---
 include/matchers/hart_peaksbelow.hpp | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/matchers/hart_equalsto.hpp b/include/matchers/hart_equalsto.hpp
index e045970..7eb50a8 100644
--- a/include/matchers/hart_equalsto.hpp
+++ b/include/matchers/hart_equalsto.hpp
@@ -126,7 +126,7 @@ private:
 
     inline bool notEqual (SampleType x, SampleType y)
     {
-        return std::abs (x - y) > m_toleranceLinear;
+        return ! (std::abs (x - y) <= m_toleranceLinear);  // NaN is never equal to anything
     }
 };
 
diff --git a/include/matchers/hart_peaksat.hpp b/include/matchers/hart_peaksat.hpp
index 496e0ee..cb56046 100644
--- a/include/matchers/hart_peaksat.hpp
+++ b/include/matchers/hart_peaksat.hpp
@@ -1,7 +1,7 @@
 #pragma once
 
 #include <algorithm>  // max()
-#include <cmath>  // abs()
+#include <cmath>  // abs(), isnan()
 #include <iomanip>
 #include <sstream>
 
@@ -47,7 +47,7 @@ public:
             {
                 const SampleType currentPeakLinear = std::abs (observedAudio[channel][frame]);
 
-                if (currentPeakLinear > observedPeakLinear)
+                if (currentPeakLinear > observedPeakLinear || std::isnan (currentPeakLinear))
                 {
                     observedPeakLinear = currentPeakLinear;
                     frameOfObservedPeakLinear = frame;
@@ -56,7 +56,7 @@ public:
             }
         }
 
-        if (std::abs (observedPeakLinear - m_targetLinear) > m_toleranceLinear)
+        if (! (std::abs (observedPeakLinear - m_targetLinear) <= m_toleranceLinear))  // NaN never peaks at the target
         {
             m_failedFrame = frameOfObservedPeakLinear;
             m_failedChannel = (int) channelOfObservedPeakLinear;
diff --git a/include/matchers/hart_peaksbelow.hpp b/include/matchers/hart_peaksbelow.hpp
index 0e5aa8b..b003db8 100644
--- a/include/matchers/hart_peaksbelow.hpp
+++ b/include/matchers/hart_peaksbelow.hpp
@@ -41,7 +41,7 @@ public:
             {
                 const SampleType observedPeakLinear = std::abs (observedAudio[channel][frame]);
 
-                if (observedPeakLinear > m_thresholdLinear)
+                if (! (observedPeakLinear <= m_thresholdLinear))  // NaN is never below anything
                 {
                     m_failedFrame = frame;
                     m_failedChannel = channel;
-- 
2.43.0


From 31117a1693a7030deea0a4d859dd5fc3909d31a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:58 +0000
Subject: [PATCH 17/36] fix: EqualsTo reports the level of negative expected
 samples in decibels

---
 include/matchers/hart_equalsto.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/matchers/hart_equalsto.hpp b/include/matchers/hart_equalsto.hpp
index 7eb50a8..7faf075 100644
--- a/include/matchers/hart_equalsto.hpp
+++ b/include/matchers/hart_equalsto.hpp
@@ -96,7 +96,7 @@ public:
         const SampleType m_differenceLinear = std::abs (m_failedExpectedValue - m_failedObservedValue);
         std::stringstream stream;
         stream << linPrecision << "Expected sample value: " << m_failedExpectedValue
-            << dbPrecision << " (" << ratioToDecibels (m_failedExpectedValue) << " dB)"
+            << dbPrecision << " (" << ratioToDecibels (std::abs (m_failedExpectedValue)) << " dB)"
             << linPrecision << ", difference: " << m_differenceLinear
             << dbPrecision << " (" << ratioToDecibels (m_differenceLinear) << " dB)";
 
-- 
2.43.0


From 57eaa04dac026956a3d11e10e36e7908135a2ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 18/36] fix: const matchers can be added to a test

Matcher::canOperatePerBlock() is not const, so checks with a const matcher or a
reference to the base class failed to compile. Ask the test's own copy instead.
---
 include/hart_process_audio.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index b1d8c13..0178f6c 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -449,13 +449,14 @@ private:
 
     void addCheck (const Matcher<SampleType>& matcher, SignalAssertionLevel signalAssertionLevel, bool shouldPass)
     {
+        std::unique_ptr<Matcher<SampleType>> ownMatcher = matcher.copy();
         const bool forceFullSignal = ! shouldPass;  // No per-block checks for inverted matchers
         auto& checksGroup =
-            (matcher.canOperatePerBlock() && ! forceFullSignal)
+            (ownMatcher->canOperatePerBlock() && ! forceFullSignal)
                 ? perBlockChecks
                 : fullSignalChecks;
         checksGroup.emplace_back (AudioTestBuilder::Check {
-            matcher.copy(),
+            std::move (ownMatcher),
             signalAssertionLevel,
             false,  // shouldSkip
             shouldPass
@@ -470,13 +471,14 @@ private:
             std::is_base_of<Matcher<SampleType>, DecayedType>::value,
             "MatcherType must be a hart::Matcher subclass"
             );
+        std::unique_ptr<Matcher<SampleType>> ownMatcher = hart::make_unique<DecayedType> (std::forward<MatcherType> (matcher));
         const bool forceFullSignal = ! shouldPass;  // No per-block checks for inverted matchers
         auto& checksGroup =
-            (matcher.canOperatePerBlock() && ! forceFullSignal)
+            (ownMatcher->canOperatePerBlock() && ! forceFullSignal)
                 ? perBlockChecks
                 : fullSignalChecks;
         checksGroup.emplace_back (AudioTestBuilder::Check {
-            hart::make_unique<DecayedType> (std::forward<MatcherType> (matcher)),
+            std::move (ownMatcher),
             signalAssertionLevel,
             false,  // shouldSkip
             shouldPass
-- 
2.43.0


From f500430377aab778fda28da3041ff386800705e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:07 +0000
Subject: [PATCH 19/36] fix: make HART_*_FORBID_COPY_AND_MOVE usable

copy() and move() are virtual, so they're always instantiated, and the
static_assert (false) in them made every class that used those macros fail to
compile. Refuse at run time instead.
---
 include/dsp/hart_dsp.hpp          | 7 +++----
 include/matchers/hart_matcher.hpp | 7 +++----
 include/signals/hart_signal.hpp   | 6 ++----
 3 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index da19f22..c759d95 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -8,6 +8,7 @@
 
 #include "hart_audio_buffer.hpp"
 #include "envelopes/hart_envelope.hpp"
+#include "hart_exceptions.hpp"
 #include "hart_utils.hpp"  // make_unique()
 
 namespace hart
@@ -370,12 +371,10 @@ inline std::ostream& operator<< (std::ostream& stream, const DSP<SampleType>& ds
 /// @ingroup DSP
 #define HART_DSP_FORBID_COPY_AND_MOVE \
     std::unique_ptr<DSP<SampleType>> copy() const override { \
-        static_assert(false, "This DSP cannot be copied"); \
-        return nullptr; \
+        HART_THROW_OR_RETURN (hart::UnsupportedError, "This DSP cannot be copied", nullptr); \
     } \
     std::unique_ptr<DSP<SampleType>> move() override { \
-        static_assert(false, "This DSP cannot be moved"); \
-        return nullptr; \
+        HART_THROW_OR_RETURN (hart::UnsupportedError, "This DSP cannot be moved", nullptr); \
     }
 
 }  // namespace hart
diff --git a/include/matchers/hart_matcher.hpp b/include/matchers/hart_matcher.hpp
index 78a1662..77130de 100644
--- a/include/matchers/hart_matcher.hpp
+++ b/include/matchers/hart_matcher.hpp
@@ -4,6 +4,7 @@
 #include <string>
 
 #include "hart_audio_buffer.hpp"
+#include "hart_exceptions.hpp"
 #include "hart_matcher_failure_details.hpp"
 #include "hart_utils.hpp"  // make_unique()
 
@@ -139,12 +140,10 @@ inline std::ostream& operator<< (std::ostream& stream, const Matcher<SampleType>
 /// @ingroup Matchers
 #define HART_MATCHER_FORBID_COPY_AND_MOVE \
     std::unique_ptr<Matcher<SampleType>> copy() const override { \
-        static_assert (false, "This Matcher cannot be copied"); \
-        return nullptr; \
+        HART_THROW_OR_RETURN (hart::UnsupportedError, "This Matcher cannot be copied", nullptr); \
     } \
     std::unique_ptr<Matcher<SampleType>> move() override { \
-        static_assert (false, "This Matcher cannot be moved"); \
-        return nullptr; \
+        HART_THROW_OR_RETURN (hart::UnsupportedError, "This Matcher cannot be moved", nullptr); \
     }
 
 
diff --git a/include/signals/hart_signal.hpp b/include/signals/hart_signal.hpp
index 33f7b16..4fa7202 100644
--- a/include/signals/hart_signal.hpp
+++ b/include/signals/hart_signal.hpp
@@ -369,10 +369,8 @@ Signal<SampleType>&& operator>> (Signal<SampleType>&& signal, std::unique_ptr<DS
 /// @ingroup Signals
 #define HART_SIGNAL_FORBID_COPY_AND_MOVE \
     std::unique_ptr<Signal<SampleType>> copy() const override { \
-        static_assert(false, "This Signal cannot be copied"); \
-        return nullptr; \
+        HART_THROW_OR_RETURN (hart::UnsupportedError, "This Signal cannot be copied", nullptr); \
     } \
     std::unique_ptr<Signal<SampleType>> move() override { \
-        static_assert(false, "This Signal cannot be moved"); \
-        return nullptr; \
+        HART_THROW_OR_RETURN (hart::UnsupportedError, "This Signal cannot be moved", nullptr); \
     }
-- 
2.43.0


From c3a10ce8886c4993dcfec635cceb807ecce58e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:41 +0000
Subject: [PATCH 20/36] fix: plots start every channel at time zero

---
 include/hart_plot.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/hart_plot.hpp b/include/hart_plot.hpp
index 49bd379..ad7faeb 100644
--- a/include/hart_plot.hpp
+++ b/include/hart_plot.hpp
@@ -44,11 +44,10 @@ void plotData (const AudioBuffer<SampleType>& input, const AudioBuffer<SampleTyp
         outputSignalPlot.x.major (t);
     }
 
-    double timeSeconds = 0.0;
-
     for (size_t channel = 0; channel < input.getNumChannels(); ++channel)
     {
         auto &inputSignalLine = inputSignalPlot.line();
+        double timeSeconds = 0.0;
 
         for (size_t frame = 0; frame < input.getNumFrames(); ++frame)
         {
@@ -57,11 +56,10 @@ void plotData (const AudioBuffer<SampleType>& input, const AudioBuffer<SampleTyp
         }
     }
 
-    timeSeconds = 0.0;
-
     for (size_t channel = 0; channel < output.getNumChannels(); ++channel)
     {
         auto &outputSignalLine = outputSignalPlot.line();
+        double timeSeconds = 0.0;
 
         for (size_t frame = 0; frame < output.getNumFrames(); ++frame)
         {
-- 
2.43.0


From 16836bc6cc77f00878937bd6540dc1265f641941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:49 +0000
Subject: [PATCH 21/36] fix: ask effects and signals what they support before
 preparing them

The test host never asked the tested effect about the channel layout, nor about
the default sample rate, and nobody asked the signals.
---
 include/hart_process_audio.hpp  | 7 ++++++-
 include/signals/hart_signal.hpp | 6 ++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 0178f6c..8ca0181 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -351,7 +351,12 @@ public:
             check.shouldSkip = false;
         }
 
-        // TODO: Ckeck supportsChannelLayout() here
+        if (! m_processor->supportsChannelLayout (m_numInputChannels, m_numOutputChannels))
+            HART_THROW_OR_RETURN (hart::ChannelLayoutError, "Channel layout is not supported by the tested DSP", std::move (m_processor));
+
+        if (! m_processor->supportsSampleRate (m_sampleRateHz))
+            HART_THROW_OR_RETURN (hart::SampleRateError, "Sample rate is not supported by the tested DSP", std::move (m_processor));
+
         m_processor->resetWithEnvelopes();
         m_processor->prepareWithEnvelopes (m_sampleRateHz, m_numInputChannels, m_numOutputChannels, m_blockSizeFrames);
 
diff --git a/include/signals/hart_signal.hpp b/include/signals/hart_signal.hpp
index 4fa7202..b44266e 100644
--- a/include/signals/hart_signal.hpp
+++ b/include/signals/hart_signal.hpp
@@ -197,6 +197,12 @@ public:
     /// @attention If you're not making a custom host, you probably don't need to call this method.
     void prepareWithDSPChain (double sampleRateHz, size_t numOutputChannels, size_t maxBlockSizeFrames)
     {
+        if (! supportsNumChannels (numOutputChannels))
+            HART_THROW_OR_RETURN_VOID (hart::ChannelLayoutError, "The Signal does not support this number of channels");
+
+        if (! supportsSampleRate (sampleRateHz))
+            HART_THROW_OR_RETURN_VOID (hart::SampleRateError, "The Signal does not support this sample rate");
+
         prepare (sampleRateHz, numOutputChannels, maxBlockSizeFrames);
         const size_t numInputChannels = numOutputChannels;
 
-- 
2.43.0


From f6130da6e69540175bda4e879e7786c5401f09cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 22/36] fix: an unexpected exception fails its task instead of
 ending the run

Errors like IOError or ValueError thrown in a task weren't caught, so the whole
run was aborted without any results.
---
 include/hart_test_registry.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/hart_test_registry.hpp b/include/hart_test_registry.hpp
index ab34844..b3e5ec9 100644
--- a/include/hart_test_registry.hpp
+++ b/include/hart_test_registry.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <algorithm>  // shuffle()
+#include <exception>
 #include <iostream>
 #include <random>
 #include <string>
@@ -136,6 +137,11 @@ private:
             assertionFailMessage = e.what();
             assertionFailed = true;
         }
+        catch (const std::exception& e)
+        {
+            assertionFailMessage = e.what();
+            assertionFailed = true;
+        }
 
         // TODO: Output test durations
 
-- 
2.43.0


From b4727101599f38ac0d5bb4cf0f26ef7071bc1a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:08 +0000
Subject: [PATCH 23/36] fix: print GainLinear's gain with the precision for
 linear values

---
 include/dsp/hart_gainlinear.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsp/hart_gainlinear.hpp b/include/dsp/hart_gainlinear.hpp
index 5b70120..c44becc 100644
--- a/include/dsp/hart_gainlinear.hpp
+++ b/include/dsp/hart_gainlinear.hpp
@@ -96,7 +96,7 @@ public:
 
     virtual void represent (std::ostream& stream) const override
     {
-        stream << dbPrecision << "GainLinear (" << m_initialGainLinear << ")";
+        stream << linPrecision << "GainLinear (" << m_initialGainLinear << ")";
     }
 
     /// @param id Only @ref GainLinear::gainLinear is accepted
-- 
2.43.0


From 1f79ee15d05562112d067041f69b0bb7cff164d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:42 +0000
Subject: [PATCH 24/36] fix: appending an empty buffer to an empty buffer

It indexed an empty vector.
---
 include/hart_audio_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hart_audio_buffer.hpp b/include/hart_audio_buffer.hpp
index b9fc275..6262749 100644
--- a/include/hart_audio_buffer.hpp
+++ b/include/hart_audio_buffer.hpp
@@ -112,7 +112,7 @@ public:
 
         for (size_t channel = 0; channel < m_numChannels; ++channel)
         {
-            SampleType* newChannelStart = &combinedFrames[channel * (thisNumFrames + otherNumFrames)];
+            SampleType* newChannelStart = combinedFrames.data() + channel * (thisNumFrames + otherNumFrames);
             std::copy (m_channelPointers[channel], m_channelPointers[channel] + thisNumFrames, newChannelStart);
             std::copy (otherBuffer[channel], otherBuffer[channel] + otherNumFrames, newChannelStart + thisNumFrames);
         }
-- 
2.43.0


From e5698f98d6f3415e6deb526241183330dfbe0f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:20 +0000
Subject: [PATCH 25/36] fix: frame range check in AudioBuffer::getMagnitude()
 can't overflow

---
 include/hart_audio_buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hart_audio_buffer.hpp b/include/hart_audio_buffer.hpp
index 6262749..154c3a4 100644
--- a/include/hart_audio_buffer.hpp
+++ b/include/hart_audio_buffer.hpp
@@ -140,7 +140,7 @@ public:
         if (channel >= m_numChannels)
             HART_THROW_OR_RETURN (hart::IndexError, "Invalid channel", (SampleType) 0);
 
-        if (startFrame + numFrames > m_numFrames || numFrames == 0)
+        if (numFrames > m_numFrames || startFrame > m_numFrames - numFrames || numFrames == 0)
             HART_THROW_OR_RETURN (hart::IndexError, "Invalid frame range", (SampleType) 0);
 
         const SampleType* start = m_channelPointers[channel] + startFrame;
@@ -155,7 +155,7 @@ public:
 
     SampleType getMagnitude (size_t startFrame, size_t numFrames) const
     {
-        if (startFrame + numFrames > m_numFrames || numFrames == 0)
+        if (numFrames > m_numFrames || startFrame > m_numFrames - numFrames || numFrames == 0)
                 HART_THROW_OR_RETURN (hart::IndexError, "Invalid frame range", (SampleType) 0);
 
         SampleType peakSampleAcrossAllChannels = (SampleType) 0;
-- 
2.43.0


From 7299e81bbf5d315d2b0e1e5fcda737125d69b780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:54 +0000
Subject: [PATCH 26/36] fix: save the requested files when an assertion fails

A failed assert check threw from inside of the block loop, before the output
file or plot could be written. Remember the failure, stop checking, and throw
after the files are saved.
---
 include/hart_process_audio.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 8ca0181..c5f6a5b 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -376,6 +376,7 @@ public:
         AudioBuffer<SampleType> fullInputBuffer (m_numInputChannels);
         AudioBuffer<SampleType> fullOutputBuffer (m_numOutputChannels);
         bool atLeastOneCheckFailed = false;
+        m_assertionFailMessage.clear();
 
         while (offsetFrames < m_durationFrames)
         {
@@ -406,6 +407,9 @@ public:
         if (m_savePlotMode == Save::always || (m_savePlotMode == Save::whenFails && atLeastOneCheckFailed))
             plotData (fullInputBuffer, fullOutputBuffer, m_sampleRateHz, m_savePlotPath);
 
+        if (! m_assertionFailMessage.empty())
+            throw hart::TestAssertException (m_assertionFailMessage);
+
         return std::move (m_processor);
     }
 
@@ -441,6 +445,7 @@ private:
     size_t m_durationFrames = static_cast<size_t> (m_durationSeconds * m_sampleRateHz);
     size_t offsetFrames = 0;
     std::string m_testLabel = {};
+    std::string m_assertionFailMessage;
 
     std::vector<Check> perBlockChecks;
     std::vector<Check> fullSignalChecks;
@@ -492,6 +497,9 @@ private:
 
     bool processChecks (std::vector<Check>& checksGroup, AudioBuffer<SampleType>& outputBlock)
     {
+        if (! m_assertionFailMessage.empty())
+            return false;
+
         bool allChecksPassed = true;
 
         for (auto& check : checksGroup)
@@ -522,7 +530,8 @@ private:
                     if (check.shouldPass)
                         appendFailureDetails (stream, matcher->getFailureDetails(), outputBlock);
 
-                    throw hart::TestAssertException (std::string (stream.str()));
+                    m_assertionFailMessage = stream.str();
+                    return false;
                 }
                 else
                 {
@@ -540,7 +549,6 @@ private:
                     hart::ExpectationFailureMessages::get().emplace_back (stream.str());
                 }
 
-                // TODO: FIXME: Do not throw indife of per-block loop if requested to write input or output to a wav file, throw after the loop instead
                 // TODO: Stop processing if expect has failed and outputting to a file wasn't requested
                 // TODO: Skip all checks if check failed, but asked to output a wav file
                 allChecksPassed = false;
-- 
2.43.0


From ea3ed923e8e906e143211f256184635cb3c35d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:08 +0000
Subject: [PATCH 27/36] fix: raise an error when a wav file can't be written

dr_wav retries short writes and ignores errors of the final flush, so a wav file
on a full disk was silently truncated.
---
 include/hart_wavwriter.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/hart_wavwriter.hpp b/include/hart_wavwriter.hpp
index 0fd9d9d..757714f 100644
--- a/include/hart_wavwriter.hpp
+++ b/include/hart_wavwriter.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <cmath>  // delete me
+#include <fstream>
 #include <string>
 #include <vector>
 
@@ -49,7 +50,11 @@ public:
                 break;
         }
 
-        if (! drwav_init_file_write (&drWavHandle, fileName.c_str(), &drWavFormat, nullptr))
+        // Written via memory, because dr_wav doesn't report I/O errors that happen when it flushes and closes a file
+        void* wavData = nullptr;
+        size_t wavDataSizeBytes = 0;
+
+        if (! drwav_init_memory_write (&drWavHandle, &wavData, &wavDataSizeBytes, &drWavFormat, nullptr))
             HART_THROW_OR_RETURN_VOID (hart::IOError, "Failed to init WAV writer");
 
         switch (wavFormat)
@@ -130,6 +135,14 @@ public:
         }
 
         drwav_uninit (&drWavHandle);
+
+        std::ofstream file (fileName, std::ios::binary);
+        file.write (static_cast<const char*> (wavData), static_cast<std::streamsize> (wavDataSizeBytes));
+        file.close();
+        drwav_free (wavData, nullptr);
+
+        if (! file)
+            HART_THROW_OR_RETURN_VOID (hart::IOError, "Failed to write the wav file");
     }
 };
 
-- 
2.43.0


From e2e12ccc450cc7278408efec07dd0a68d7fea0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:10 +0000
Subject: [PATCH 28/36] fix: render automation for the frames of the block, not
 for the maximum block size

---
 include/dsp/hart_dsp.hpp    | 5 +++--
 include/dsp/hart_gaindb.hpp | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index c759d95..8a12c4e 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -271,9 +271,10 @@ public:
             // Sanity checks
             hassert (supportsEnvelopeFor (paramId) && "Envelope for this id is unsupported, yet there's an envelope buffer allocated for it");
             hassert (hasEnvelopeFor (paramId) && "Envelope for this param id is not attached, yet there's an envelope buffer allocated for it");
-            hassert (input.getNumFrames() <= envelopeBuffer.size() && "Envelope Buffers were not allocated properly for this buffer size");
+            hassert (input.getNumFrames() <= envelopeBuffer.capacity() && "Envelope Buffers were not allocated properly for this buffer size");
 
-            // Render envelope values
+            // Render envelope values for this block only, it may be shorter than the maximum block size
+            envelopeBuffer.resize (input.getNumFrames());
             getValues (paramId, envelopeBuffer.size(), envelopeBuffer);
         }
         
diff --git a/include/dsp/hart_gaindb.hpp b/include/dsp/hart_gaindb.hpp
index 66f2a32..3ab5680 100644
--- a/include/dsp/hart_gaindb.hpp
+++ b/include/dsp/hart_gaindb.hpp
@@ -52,9 +52,9 @@ public:
         if (hasGainEnvelope)
         {
             auto& gainEnvelopeValuesDb = envelopeBuffers. at(Params::gainDb);
-            hassert (gainEnvelopeValuesDb.size() == m_gainEnvelopeValuesLinear.size());
+            hassert (gainEnvelopeValuesDb.size() <= m_gainEnvelopeValuesLinear.size());
             
-            for (size_t i = 0; i < m_gainEnvelopeValuesLinear.size(); ++i)
+            for (size_t i = 0; i < gainEnvelopeValuesDb.size(); ++i)
                 m_gainEnvelopeValuesLinear[i] = decibelsToRatio (gainEnvelopeValuesDb[i]);
 
             if (multiplexerMode)
-- 
2.43.0


From c8e5313dd2cfbd80e08325bc31314ccf0c8cb2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:20 +0000
Subject: [PATCH 29/36] fix: SineWave::reset() wraps the initial phase like the
 constructor does

---
 include/signals/hart_sinewave.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/signals/hart_sinewave.hpp b/include/signals/hart_sinewave.hpp
index f2621f6..4e336cd 100644
--- a/include/signals/hart_sinewave.hpp
+++ b/include/signals/hart_sinewave.hpp
@@ -56,6 +56,7 @@ public:
     void reset() override
     {
         m_phaseRadians = m_initialPhaseRadians;
+        clampPhase();
     }
 
     void represent (std::ostream& stream) const override
-- 
2.43.0


From d5221b143220326951b9eb5e1dce4b1ff06634db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:49 +0000
Subject: [PATCH 30/36] fix: an effect can be chained to a signal through a
 non-const reference to its base class

---
 include/signals/hart_signal.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/signals/hart_signal.hpp b/include/signals/hart_signal.hpp
index b44266e..24761e8 100644
--- a/include/signals/hart_signal.hpp
+++ b/include/signals/hart_signal.hpp
@@ -178,7 +178,8 @@ public:
             std::is_base_of<
                 DSP<SampleType>,
                 typename std::decay<DerivedDSP>::type
-                >::value
+                >::value &&
+            ! std::is_abstract<typename std::decay<DerivedDSP>::type>::value  // Those get copied via DSP::copy() instead
             >::type
         >
     Signal& followedBy (DerivedDSP&& dsp)
-- 
2.43.0


From 1145efdb3c301272d6331f61f30356da3db26245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:55 +0000
Subject: [PATCH 31/36] fix: a matcher can be passed through a non-const
 reference to its base class

---
 include/hart_process_audio.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index c5f6a5b..492a027 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -473,7 +473,10 @@ private:
         });
     }
 
-    template <typename MatcherType>
+    template <
+        typename MatcherType,
+        typename = typename std::enable_if<! std::is_abstract<typename std::decay<MatcherType>::type>::value>::type  // Those get copied via Matcher::copy() instead
+        >
     void addCheck (MatcherType&& matcher, SignalAssertionLevel signalAssertionLevel, bool shouldPass)
     {
         using DecayedType = typename std::decay<MatcherType>::type;
-- 
2.43.0


From 0dd25483de0469fbb07d5176af23cffec8d03058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:14 +0000
Subject: [PATCH 32/36] fix: a test is not run on an input signal that refused
 to be prepared

---
 include/hart_process_audio.hpp  |  5 ++++-
 include/signals/hart_signal.hpp | 13 ++++++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 492a027..aa63258 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -370,7 +370,10 @@ public:
             HART_THROW_OR_RETURN (hart::StateError, "No input signal - call withInputSignal() first!", std::move (m_processor));
 
         m_inputSignal->resetWithDSPChain();
-        m_inputSignal->prepareWithDSPChain (m_sampleRateHz, m_numInputChannels, m_blockSizeFrames);
+
+        if (! m_inputSignal->prepareWithDSPChain (m_sampleRateHz, m_numInputChannels, m_blockSizeFrames))
+            return std::move (m_processor);  // The error is already reported
+
         offsetFrames = 0;
 
         AudioBuffer<SampleType> fullInputBuffer (m_numInputChannels);
diff --git a/include/signals/hart_signal.hpp b/include/signals/hart_signal.hpp
index 24761e8..0b6ba38 100644
--- a/include/signals/hart_signal.hpp
+++ b/include/signals/hart_signal.hpp
@@ -196,13 +196,14 @@ public:
     /// like a custom Matcher, you must call this method before calling @ref renderNextBlockWithDSPChain().
     /// You must also call @ref supportsNumChannels() and @ref supportsSampleRate() before calling this method.
     /// @attention If you're not making a custom host, you probably don't need to call this method.
-    void prepareWithDSPChain (double sampleRateHz, size_t numOutputChannels, size_t maxBlockSizeFrames)
+    /// @return true if the signal is ready to render, false if it was refused (only in builds that don't throw exceptions)
+    bool prepareWithDSPChain (double sampleRateHz, size_t numOutputChannels, size_t maxBlockSizeFrames)
     {
         if (! supportsNumChannels (numOutputChannels))
-            HART_THROW_OR_RETURN_VOID (hart::ChannelLayoutError, "The Signal does not support this number of channels");
+            HART_THROW_OR_RETURN (hart::ChannelLayoutError, "The Signal does not support this number of channels", false);
 
         if (! supportsSampleRate (sampleRateHz))
-            HART_THROW_OR_RETURN_VOID (hart::SampleRateError, "The Signal does not support this sample rate");
+            HART_THROW_OR_RETURN (hart::SampleRateError, "The Signal does not support this sample rate", false);
 
         prepare (sampleRateHz, numOutputChannels, maxBlockSizeFrames);
         const size_t numInputChannels = numOutputChannels;
@@ -212,13 +213,15 @@ public:
         for (auto& dsp : dspChain)
         {
             if (! dsp->supportsChannelLayout (numInputChannels, numOutputChannels))
-                HART_THROW_OR_RETURN_VOID (ChannelLayoutError, "Not all DSP in the Signal's DSP chain support its channel layout");
+                HART_THROW_OR_RETURN (ChannelLayoutError, "Not all DSP in the Signal's DSP chain support its channel layout", false);
 
             if (! dsp->supportsSampleRate (sampleRateHz))
-                HART_THROW_OR_RETURN_VOID (hart::SampleRateError, "Not all DSP in the Signal's DSP chain support its sample rate");
+                HART_THROW_OR_RETURN (hart::SampleRateError, "Not all DSP in the Signal's DSP chain support its sample rate", false);
 
             dsp->prepareWithEnvelopes (sampleRateHz, numInputChannels, numOutputChannels, maxBlockSizeFrames);
         }
+
+        return true;
     }
 
     /// @brief Renders next block audio for the signal and all the effects in the DSP chain
-- 
2.43.0


From a3f9b4a1ad2ec439b71bae5f2cc23456c517eed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:34 +0000
Subject: [PATCH 33/36] fix: EqualsTo does not render a reference that was
 refused

---
 include/matchers/hart_equalsto.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/matchers/hart_equalsto.hpp b/include/matchers/hart_equalsto.hpp
index 7faf075..dbbae03 100644
--- a/include/matchers/hart_equalsto.hpp
+++ b/include/matchers/hart_equalsto.hpp
@@ -55,13 +55,15 @@ public:
 
     void prepare (double sampleRateHz, size_t numChannels, size_t maxBlockSizeFrames) override
     {
-        m_referenceSignal->prepareWithDSPChain (sampleRateHz, numChannels, maxBlockSizeFrames);
+        m_isReferenceReady = m_referenceSignal != nullptr && m_referenceSignal->prepareWithDSPChain (sampleRateHz, numChannels, maxBlockSizeFrames);
     }
 
     bool match (const AudioBuffer<SampleType>& observedAudio) override
     {
         auto referenceAudio = AudioBuffer<SampleType>::emptyLike (observedAudio);
-        m_referenceSignal->renderNextBlockWithDSPChain (referenceAudio);
+
+        if (m_isReferenceReady)
+            m_referenceSignal->renderNextBlockWithDSPChain (referenceAudio);
 
         for (size_t channel = 0; channel < referenceAudio.getNumChannels(); ++channel)
         {
@@ -88,7 +90,8 @@ public:
 
     void reset() override
     {
-        m_referenceSignal->resetWithDSPChain();
+        if (m_referenceSignal != nullptr)
+            m_referenceSignal->resetWithDSPChain();
     }
 
     virtual MatcherFailureDetails getFailureDetails() const override
@@ -109,8 +112,12 @@ public:
 
     void represent (std::ostream& stream) const override
     {
-        stream << "EqualsTo (" << *m_referenceSignal
-            << linPrecision << ", " << m_toleranceLinear << ')';
+        stream << "EqualsTo (";
+
+        if (m_referenceSignal != nullptr)
+            stream << *m_referenceSignal;
+
+        stream << linPrecision << ", " << m_toleranceLinear << ')';
     }
 
     HART_MATCHER_DEFINE_COPY_AND_MOVE (EqualsTo);
@@ -118,6 +125,7 @@ public:
 private:
     std::unique_ptr<Signal<SampleType>> m_referenceSignal;
     const SampleType m_toleranceLinear;
+    bool m_isReferenceReady = false;  // A refused reference is not rendered
 
     size_t m_failedFrame = 0;
     size_t m_failedChannel = 0;
-- 
2.43.0


From 8ebcc905279e5a4a2c7c492ec67331e085993abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:56 +0000
Subject: [PATCH 34/36] fix: an effect that refuses to be copied is not added
 to a chain as nothing

---
 include/signals/hart_signal.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/signals/hart_signal.hpp b/include/signals/hart_signal.hpp
index 0b6ba38..0ad6c35 100644
--- a/include/signals/hart_signal.hpp
+++ b/include/signals/hart_signal.hpp
@@ -37,7 +37,7 @@ public:
         dspChain.reserve (dspChain.size());
 
         for (auto& dsp : other.dspChain)
-            dspChain.push_back (dsp->copy());
+            followedBy (*dsp);
     }
 
     /// @brief Moves from other signal
@@ -64,7 +64,7 @@ public:
             return *this;
 
         for (auto& dsp : other.dspChain)
-            dspChain.push_back (dsp->copy());
+            followedBy (*dsp);
         
         return *this;
     }
@@ -154,7 +154,11 @@ public:
     /// @param dsp A DSP effect instance
     Signal& followedBy (const DSP<SampleType>& dsp)
     {
-        dspChain.emplace_back (dsp.copy());
+        auto ownDsp = dsp.copy();
+
+        if (ownDsp != nullptr)  // Non-copyable effects are refused
+            dspChain.emplace_back (std::move (ownDsp));
+
         return *this;
     }
 
-- 
2.43.0


From 9028c696e1bb7f054127fda9fd28683774b72c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:17 +0000
Subject: [PATCH 35/36] fix: a test of an effect that refused to be copied is
 refused

---
 include/hart_process_audio.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index aa63258..06effc2 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -81,7 +81,7 @@ public:
         if (sampleRateHz <= 0)
             HART_THROW_OR_RETURN (hart::ValueError, "Sample rate should be a positive value in Hz", *this);
 
-        if (! m_processor->supportsSampleRate (sampleRateHz))
+        if (m_processor != nullptr && ! m_processor->supportsSampleRate (sampleRateHz))
             HART_THROW_OR_RETURN (hart::SampleRateError, "Sample rate is not supported by the tested DSP", *this);
 
         m_sampleRateHz = sampleRateHz;
@@ -332,6 +332,9 @@ public:
     /// @details Call this after setting all the test parameters
     std::unique_ptr<DSP<SampleType>> process()
     {
+        if (m_processor == nullptr)
+            HART_THROW_OR_RETURN (hart::StateError, "No DSP to test", nullptr);
+
         m_durationFrames = (size_t) std::round (m_sampleRateHz * m_durationSeconds);
 
         if (m_durationFrames == 0)
-- 
2.43.0


From b161db6bd30d241391d237f676b56d975722ae07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:40 +0000
Subject: [PATCH 36/36] fix: a matcher that refuses to be copied is not added
 as a check

---
 include/hart_process_audio.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 06effc2..5036c19 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -466,6 +466,10 @@ private:
     void addCheck (const Matcher<SampleType>& matcher, SignalAssertionLevel signalAssertionLevel, bool shouldPass)
     {
         std::unique_ptr<Matcher<SampleType>> ownMatcher = matcher.copy();
+
+        if (ownMatcher == nullptr)  // Non-copyable matchers are refused
+            return;
+
         const bool forceFullSignal = ! shouldPass;  // No per-block checks for inverted matchers
         auto& checksGroup =
             (ownMatcher->canOperatePerBlock() && ! forceFullSignal)
-- 
2.43.0

