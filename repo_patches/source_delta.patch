From 6661efbbd96294041c213d1873ccfe4f84a71bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:07 +0000
Subject: [PATCH 01/27] fix: prepare automation envelopes with the host sample
 rate

Envelopes were never prepared, so they always ran at their default 44100 Hz
and their curves were stretched or squashed at any other sample rate.
---
 include/dsp/hart_dsp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index 8608d93..787da2b 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -230,6 +230,7 @@ public:
         {
             const int paramId = item.first;
             m_envelopeBuffers.emplace (paramId, std::vector<double> (maxBlockSizeFrames));
+            item.second->prepare (sampleRateHz, maxBlockSizeFrames);
         }
 
         hassert (m_envelopes.size() == m_envelopeBuffers.size());
-- 
2.43.0


From 071976b97d74538a35d766e610abf3d291c15544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:07 +0000
Subject: [PATCH 02/27] fix: restart automation envelopes when a DSP or signal
 is reset

Hosts reset the effects but not the envelopes attached to them, so a re-used
DSP carried on from wherever its envelope had stopped. SegmentedEnvelope::reset()
also kept the start value of the segment it was in.
---
 include/dsp/hart_dsp.hpp                     | 11 +++++++++++
 include/envelopes/hart_segmentedenvelope.hpp |  1 +
 include/hart_process_audio.hpp               |  2 +-
 include/signals/hart_signal.hpp              |  2 +-
 4 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index 787da2b..626731a 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -251,6 +251,17 @@ public:
         prepare (sampleRateHz, numInputChannels, numOutputChannels, maxBlockSizeFrames);
     }
 
+    /// @brief Resets the effect itself and all the attached envelopes to initial state
+    /// @details This method is intended to be called by DSP hosts like @ref hart::AudioTestBuilder or @ref hart::Signal.
+    /// @attention If you're not making a custom host, you probably don't need to call this method.
+    void resetWithEnvelopes()
+    {
+        for (auto& item : m_envelopes)
+            item.second->reset();
+
+        reset();
+    }
+
     /// @brief Renders all the automation envelopes and processes the audio
     /// @details This method is intended to be called by DSP hosts like @ref hart::AudioTestBuilder @ref hart::Signal.
     /// If you're making something that owns an instance of a Signal and needs it to generate audio,
diff --git a/include/envelopes/hart_segmentedenvelope.hpp b/include/envelopes/hart_segmentedenvelope.hpp
index 0e56502..9aed5b1 100644
--- a/include/envelopes/hart_segmentedenvelope.hpp
+++ b/include/envelopes/hart_segmentedenvelope.hpp
@@ -62,6 +62,7 @@ public:
     {
         m_currentTimeSeconds = 0.0;
         m_currentSegmentIndex = 0;
+        m_beginValue = m_resetValue;
         m_currentValue = m_resetValue;
     }
 
diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 162b0dc..83b973f 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -352,7 +352,7 @@ public:
         }
 
         // TODO: Ckeck supportsChannelLayout() here
-        m_processor->reset();
+        m_processor->resetWithEnvelopes();
         m_processor->prepareWithEnvelopes (m_sampleRateHz, m_numInputChannels, m_numOutputChannels, m_blockSizeFrames);
 
         for (const ParamValue& paramValue : paramValues)
diff --git a/include/signals/hart_signal.hpp b/include/signals/hart_signal.hpp
index f36a981..33f7b16 100644
--- a/include/signals/hart_signal.hpp
+++ b/include/signals/hart_signal.hpp
@@ -236,7 +236,7 @@ public:
         reset();
 
         for (auto& dsp : dspChain)
-            dsp->reset();
+            dsp->resetWithEnvelopes();
     }
 
     /// @brief Makes a text representation of this signal and its entire signal chain for test failure outputs.
-- 
2.43.0


From 24a487e9c385bd8f6557cc9a1ff921c7fda2e8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:07 +0000
Subject: [PATCH 03/27] fix: render a SegmentedEnvelope without segments as its
 start value

It called back() on an empty vector.
---
 include/envelopes/hart_segmentedenvelope.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/envelopes/hart_segmentedenvelope.hpp b/include/envelopes/hart_segmentedenvelope.hpp
index 9aed5b1..8f32ed7 100644
--- a/include/envelopes/hart_segmentedenvelope.hpp
+++ b/include/envelopes/hart_segmentedenvelope.hpp
@@ -189,7 +189,7 @@ private:
         }
 
         if (m_currentSegmentIndex >= m_segments.size())
-            m_currentValue = m_segments.back().targetValue;
+            m_currentValue = m_segments.empty() ? m_resetValue : m_segments.back().targetValue;
     }
 };
 
-- 
2.43.0


From 1e4e779f1ba5c22faffdcf742a301a2b6867afd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:07 +0000
Subject: [PATCH 04/27] fix: let the last envelope attached to a parameter win,
 as documented

emplace() kept the first one. The rvalue overload also tried to instantiate the
abstract Envelope class, so it never compiled when used.
---
 include/dsp/hart_dsp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index 626731a..301bf09 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -185,7 +185,7 @@ public:
         if (! supportsEnvelopeFor(paramId))
             HART_THROW_OR_RETURN (hart::UnsupportedError, std::string ("DSP doesn't support envelopes for param ID: ") + std::to_string (paramId), *this);
 
-        m_envelopes.emplace (paramId, hart::make_unique<Envelope> (std::move (envelope)));
+        m_envelopes[paramId] = envelope.copy();
         return *this;
     }
 
@@ -202,7 +202,7 @@ public:
         if (! supportsEnvelopeFor(paramId))
             HART_THROW_OR_RETURN (hart::UnsupportedError, std::string ("DSP doesn't support envelopes for param ID: ") + std::to_string (paramId), *this);
 
-        m_envelopes.emplace (paramId, envelope.copy());
+        m_envelopes[paramId] = envelope.copy();
         return *this;
     }
 
-- 
2.43.0


From ceeeec2b0a034c1b4690711fc5a7469a74d5965e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:07 +0000
Subject: [PATCH 05/27] fix: drop previous envelopes on DSP copy assignment

The target kept its own envelopes and ignored those of the source for the same
parameters, so it was not a copy.
---
 include/dsp/hart_dsp.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index 301bf09..b0c451b 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -156,6 +156,8 @@ public:
         if (this == &other)
             return *this;
 
+        m_envelopes.clear();
+
         for (auto& pair : other.m_envelopes)
             m_envelopes.emplace (pair.first, pair.second->copy());
 
-- 
2.43.0


From 09da4e4c5c096fde0aa7b2bcc5af9afdb2b07c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:07 +0000
Subject: [PATCH 06/27] fix: hand out exactly one envelope value per frame of
 the block

Envelopes were always rendered for the maximum block size, so in a shorter block
the buffers were longer than the audio and the envelope ran ahead of it.
---
 include/dsp/hart_dsp.hpp    | 7 +++++--
 include/dsp/hart_gaindb.hpp | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index b0c451b..93b08b2 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -227,6 +227,7 @@ public:
     void prepareWithEnvelopes (double sampleRateHz, size_t numInputChannels, size_t numOutputChannels, size_t maxBlockSizeFrames)
     {
         m_envelopeBuffers.clear();  // TODO: Remove only unused buffers
+        m_maxBlockSizeFrames = maxBlockSizeFrames;
 
         for (auto& item : m_envelopes)
         {
@@ -281,9 +282,10 @@ public:
             // Sanity checks
             hassert (supportsEnvelopeFor (paramId) && "Envelope for this id is unsupported, yet there's an envelope buffer allocated for it");
             hassert (hasEnvelopeFor (paramId) && "Envelope for this param id is not attached, yet there's an envelope buffer allocated for it");
-            hassert (input.getNumFrames() <= envelopeBuffer.size() && "Envelope Buffers were not allocated properly for this buffer size");
+            hassert (input.getNumFrames() <= m_maxBlockSizeFrames && "Envelope Buffers were not allocated properly for this buffer size");
 
-            // Render envelope values
+            // Render envelope values, one per each frame in this block (last block may be smaller)
+            envelopeBuffer.resize (input.getNumFrames());
             getValues (paramId, envelopeBuffer.size(), envelopeBuffer);
         }
         
@@ -297,6 +299,7 @@ public:
 private:
     std::unordered_map<int, std::unique_ptr<Envelope>> m_envelopes;
     EnvelopeBuffers m_envelopeBuffers;
+    size_t m_maxBlockSizeFrames = 0;
 
     /// @brief Gets sample-accurate automation envelope values for a specific parameter
     /// @param[in] paramId Some ID that your subclass understands
diff --git a/include/dsp/hart_gaindb.hpp b/include/dsp/hart_gaindb.hpp
index 66f2a32..3ab5680 100644
--- a/include/dsp/hart_gaindb.hpp
+++ b/include/dsp/hart_gaindb.hpp
@@ -52,9 +52,9 @@ public:
         if (hasGainEnvelope)
         {
             auto& gainEnvelopeValuesDb = envelopeBuffers. at(Params::gainDb);
-            hassert (gainEnvelopeValuesDb.size() == m_gainEnvelopeValuesLinear.size());
+            hassert (gainEnvelopeValuesDb.size() <= m_gainEnvelopeValuesLinear.size());
             
-            for (size_t i = 0; i < m_gainEnvelopeValuesLinear.size(); ++i)
+            for (size_t i = 0; i < gainEnvelopeValuesDb.size(); ++i)
                 m_gainEnvelopeValuesLinear[i] = decibelsToRatio (gainEnvelopeValuesDb[i]);
 
             if (multiplexerMode)
-- 
2.43.0


From 6ec38b070c8f36f3294b8173caadf5151b776230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:07 +0000
Subject: [PATCH 07/27] fix: prepare full-signal matchers for the length of the
 full signal

They were prepared for the block size and then handed the whole signal, which
threw HartAssertException for a reference signal with automation.
---
 include/hart_process_audio.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 83b973f..913d6f7 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -346,7 +346,7 @@ public:
 
         for (auto& check : fullSignalChecks)
         {
-            check.matcher->prepare (m_sampleRateHz, m_numOutputChannels, m_blockSizeFrames);
+            check.matcher->prepare (m_sampleRateHz, m_numOutputChannels, m_durationFrames);
             check.matcher->reset();
             check.shouldSkip = false;
         }
-- 
2.43.0


From 717658665f686adbdfba95bb9124d49952a52a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:07 +0000
Subject: [PATCH 08/27] fix: carry on with other checks after a failed
 expectation

The remaining checks were skipped for the block (or signal), so their failures
were lost, and EqualsTo fell out of step with the audio and failed for no reason.
---
 include/hart_process_audio.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 913d6f7..2536076 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -484,6 +484,8 @@ private:
 
     bool processChecks (std::vector<Check>& checksGroup, AudioBuffer<SampleType>& outputBlock)
     {
+        bool allChecksPassed = true;
+
         for (auto& check : checksGroup)
         {
             if (check.shouldSkip)
@@ -533,11 +535,11 @@ private:
                 // TODO: FIXME: Do not throw indife of per-block loop if requested to write input or output to a wav file, throw after the loop instead
                 // TODO: Stop processing if expect has failed and outputting to a file wasn't requested
                 // TODO: Skip all checks if check failed, but asked to output a wav file
-                return false;
+                allChecksPassed = false;
             }
         }
 
-        return true;
+        return allChecksPassed;
     }
 
     void appendFailureDetails (std::stringstream& stream, const MatcherFailureDetails& details, AudioBuffer<SampleType>& observedAudioBlock)
-- 
2.43.0


From f560619f9017096b9540636021a4eefcfcd76d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:07 +0000
Subject: [PATCH 09/27] fix: save requested files when an assertion fails

The assertion was thrown from within the render loop, before the output and the
plot were saved, although Save::always and Save::whenFails both ask for it.
---
 include/hart_process_audio.hpp | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 2536076..24e7de2 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -3,6 +3,7 @@
 #include <algorithm>  // min()
 #include <cassert>
 #include <cmath>
+#include <exception>  // exception_ptr
 #include <iomanip>
 #include <memory>
 #include <sstream>
@@ -371,8 +372,10 @@ public:
         AudioBuffer<SampleType> fullInputBuffer (m_numInputChannels);
         AudioBuffer<SampleType> fullOutputBuffer (m_numOutputChannels);
         bool atLeastOneCheckFailed = false;
+        std::exception_ptr failedAssertion = nullptr;
+        const bool shouldSaveIfFails = m_saveOutputMode != Save::never || m_savePlotMode != Save::never;
 
-        while (offsetFrames < m_durationFrames)
+        while (offsetFrames < m_durationFrames && (failedAssertion == nullptr || shouldSaveIfFails))
         {
             // TODO: Do not continue if there are no checks, or all checks should skip and there's no input and output file to write
 
@@ -383,7 +386,7 @@ public:
             m_inputSignal->renderNextBlockWithDSPChain (inputBlock);
             m_processor->processWithEnvelopes (inputBlock, outputBlock);
 
-            const bool allChecksPassed = processChecks (perBlockChecks, outputBlock);
+            const bool allChecksPassed = processChecks (perBlockChecks, outputBlock, failedAssertion);
             atLeastOneCheckFailed |= ! allChecksPassed;
             fullInputBuffer.appendFrom (inputBlock);
             fullOutputBuffer.appendFrom (outputBlock);
@@ -391,7 +394,7 @@ public:
             offsetFrames += blockSizeFrames;
         }
 
-        const bool allChecksPassed = processChecks (fullSignalChecks, fullOutputBuffer);
+        const bool allChecksPassed = processChecks (fullSignalChecks, fullOutputBuffer, failedAssertion);
         atLeastOneCheckFailed |= ! allChecksPassed;
 
         if (m_saveOutputMode == Save::always || (m_saveOutputMode == Save::whenFails && atLeastOneCheckFailed))
@@ -400,6 +403,9 @@ public:
         if (m_savePlotMode == Save::always || (m_savePlotMode == Save::whenFails && atLeastOneCheckFailed))
             plotData (fullInputBuffer, fullOutputBuffer, m_sampleRateHz, m_savePlotPath);
 
+        if (failedAssertion != nullptr)
+            std::rethrow_exception (failedAssertion);
+
         return std::move (m_processor);
     }
 
@@ -482,6 +488,24 @@ private:
         });
     }
 
+    /// @brief Same as the other processChecks(), but keeps the failed assertion for later instead of throwing it
+    /// @details Does nothing if there's a failed assertion already
+    bool processChecks (std::vector<Check>& checksGroup, AudioBuffer<SampleType>& outputBlock, std::exception_ptr& failedAssertion)
+    {
+        if (failedAssertion != nullptr)
+            return false;
+
+        try
+        {
+            return processChecks (checksGroup, outputBlock);
+        }
+        catch (const hart::TestAssertException&)
+        {
+            failedAssertion = std::current_exception();
+            return false;
+        }
+    }
+
     bool processChecks (std::vector<Check>& checksGroup, AudioBuffer<SampleType>& outputBlock)
     {
         bool allChecksPassed = true;
@@ -532,7 +556,6 @@ private:
                     hart::ExpectationFailureMessages::get().emplace_back (stream.str());
                 }
 
-                // TODO: FIXME: Do not throw indife of per-block loop if requested to write input or output to a wav file, throw after the loop instead
                 // TODO: Stop processing if expect has failed and outputting to a file wasn't requested
                 // TODO: Skip all checks if check failed, but asked to output a wav file
                 allChecksPassed = false;
-- 
2.43.0


From 3cd68c1ad64db756d92425d2c28c618ca49cb231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:07 +0000
Subject: [PATCH 10/27] fix: report correct timestamps for full-signal checks

The full length of the signal was added to them.
---
 include/hart_process_audio.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 24e7de2..a974105 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -394,6 +394,7 @@ public:
             offsetFrames += blockSizeFrames;
         }
 
+        offsetFrames = 0;  // Those checks get the audio from its very beginning
         const bool allChecksPassed = processChecks (fullSignalChecks, fullOutputBuffer, failedAssertion);
         atLeastOneCheckFailed |= ! allChecksPassed;
 
-- 
2.43.0


From f325facdbfbbaf9b50f18bdbf5f3497f1750908f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:07 +0000
Subject: [PATCH 11/27] fix: do not let NaN samples satisfy the stock matchers

All the comparisons with NaN were false, so audio with NaNs was equal to any
signal, peaked below any level, and NaNs were ignored by PeaksAt.
---
 include/matchers/hart_equalsto.hpp   | 5 ++++-
 include/matchers/hart_peaksat.hpp    | 8 ++++++++
 include/matchers/hart_peaksbelow.hpp | 2 +-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/matchers/hart_equalsto.hpp b/include/matchers/hart_equalsto.hpp
index e045970..1c2bd8a 100644
--- a/include/matchers/hart_equalsto.hpp
+++ b/include/matchers/hart_equalsto.hpp
@@ -126,7 +126,10 @@ private:
 
     inline bool notEqual (SampleType x, SampleType y)
     {
-        return std::abs (x - y) > m_toleranceLinear;
+        if (x == y)  // Also covers the infinities
+            return false;
+
+        return ! (std::abs (x - y) <= m_toleranceLinear);  // NaN is not equal to anything
     }
 };
 
diff --git a/include/matchers/hart_peaksat.hpp b/include/matchers/hart_peaksat.hpp
index 496e0ee..4937122 100644
--- a/include/matchers/hart_peaksat.hpp
+++ b/include/matchers/hart_peaksat.hpp
@@ -47,6 +47,14 @@ public:
             {
                 const SampleType currentPeakLinear = std::abs (observedAudio[channel][frame]);
 
+                if (std::isnan (currentPeakLinear))
+                {
+                    m_failedFrame = frame;
+                    m_failedChannel = channel;
+                    m_observedPeakDb = currentPeakLinear;
+                    return false;
+                }
+
                 if (currentPeakLinear > observedPeakLinear)
                 {
                     observedPeakLinear = currentPeakLinear;
diff --git a/include/matchers/hart_peaksbelow.hpp b/include/matchers/hart_peaksbelow.hpp
index 0e5aa8b..acf4326 100644
--- a/include/matchers/hart_peaksbelow.hpp
+++ b/include/matchers/hart_peaksbelow.hpp
@@ -41,7 +41,7 @@ public:
             {
                 const SampleType observedPeakLinear = std::abs (observedAudio[channel][frame]);
 
-                if (observedPeakLinear > m_thresholdLinear)
+                if (! (observedPeakLinear <= m_thresholdLinear))  // NaN does not peak below anything
                 {
                     m_failedFrame = frame;
                     m_failedChannel = channel;
-- 
2.43.0


From 4fcc85e65547c59221337a385bafca1870da389c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:07 +0000
Subject: [PATCH 12/27] fix: wrap around within a block when looping a wav file

The read position went on past the end of the wav data until the end of the block.
---
 include/signals/hart_wavfile.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/signals/hart_wavfile.hpp b/include/signals/hart_wavfile.hpp
index 1d924f2..7f1419d 100644
--- a/include/signals/hart_wavfile.hpp
+++ b/include/signals/hart_wavfile.hpp
@@ -95,15 +95,13 @@ public:
         // TODO: Add resampling
         const size_t numFrames = output.getNumFrames();
         size_t frameInOutputBuffer = 0;
-        size_t frameInWavBuffer = m_wavOffsetFrames;
 
         while (m_wavOffsetFrames < m_wavFrames->getNumFrames() && frameInOutputBuffer < numFrames)
         {
             for (size_t channel = 0; channel < m_wavNumChannels; ++channel)
-                output[channel][frameInOutputBuffer] = (*m_wavFrames)[channel][frameInWavBuffer];
+                output[channel][frameInOutputBuffer] = (*m_wavFrames)[channel][m_wavOffsetFrames];
 
             ++frameInOutputBuffer;
-            ++frameInWavBuffer;
             ++m_wavOffsetFrames;
 
             if (m_loop == Loop::yes)
-- 
2.43.0


From d15e28ce1659f540299acac5081c8fb8fad97e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:07 +0000
Subject: [PATCH 13/27] fix: let WavFile fill fewer channels than there are in
 the file, as documented

supportsNumChannels() accepted it, but prepare() threw ChannelLayoutError.
---
 include/signals/hart_wavfile.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/signals/hart_wavfile.hpp b/include/signals/hart_wavfile.hpp
index 7f1419d..c338215 100644
--- a/include/signals/hart_wavfile.hpp
+++ b/include/signals/hart_wavfile.hpp
@@ -81,8 +81,7 @@ public:
 
     void prepare (double sampleRateHz, size_t numOutputChannels, size_t /*maxBlockSizeFrames*/) override
     {
-        // There are a few ovbvious cases where channel number mismatch can be gracefully resolved - perhaps in the future
-        if (numOutputChannels != m_wavNumChannels)
+        if (! supportsNumChannels (numOutputChannels))
             HART_THROW_OR_RETURN_VOID (hart::ChannelLayoutError, std::string ("Unexpected channel number"));
 
         if (floatsNotEqual (sampleRateHz, m_wavSampleRateHz))
@@ -91,14 +90,13 @@ public:
 
     void renderNextBlock (AudioBuffer<SampleType>& output) override
     {
-        // TODO: Add support for number of channels different from the wav file
         // TODO: Add resampling
         const size_t numFrames = output.getNumFrames();
         size_t frameInOutputBuffer = 0;
 
         while (m_wavOffsetFrames < m_wavFrames->getNumFrames() && frameInOutputBuffer < numFrames)
         {
-            for (size_t channel = 0; channel < m_wavNumChannels; ++channel)
+            for (size_t channel = 0; channel < output.getNumChannels(); ++channel)
                 output[channel][frameInOutputBuffer] = (*m_wavFrames)[channel][m_wavOffsetFrames];
 
             ++frameInOutputBuffer;
@@ -112,7 +110,7 @@ public:
         {
             hassert (m_loop == Loop::no);
 
-            for (size_t channel = 0; channel < m_wavNumChannels; ++channel)
+            for (size_t channel = 0; channel < output.getNumChannels(); ++channel)
                 output[channel][frameInOutputBuffer] = (SampleType) 0;
 
             ++frameInOutputBuffer;
-- 
2.43.0


From 8e7703ddd75f791977f3cab6469583055684d186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:07 +0000
Subject: [PATCH 14/27] fix: query supported layouts and sample rates before
 preparing, as documented

The tested DSP was never asked about its channel layout, nor about the default
sample rate, and signals were never asked about anything.
---
 include/hart_process_audio.hpp  | 7 ++++++-
 include/signals/hart_signal.hpp | 6 ++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index a974105..e096b56 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -338,6 +338,12 @@ public:
         if (m_durationFrames == 0)
             HART_THROW_OR_RETURN (hart::SizeError, "Nothing to process", std::move (m_processor));
 
+        if (! m_processor->supportsSampleRate (m_sampleRateHz))
+            HART_THROW_OR_RETURN (hart::SampleRateError, "Sample rate is not supported by the tested DSP", std::move (m_processor));
+
+        if (! m_processor->supportsChannelLayout (m_numInputChannels, m_numOutputChannels))
+            HART_THROW_OR_RETURN (hart::ChannelLayoutError, "Channel layout is not supported by the tested DSP", std::move (m_processor));
+
         for (auto& check : perBlockChecks)
         {
             check.matcher->prepare (m_sampleRateHz, m_numOutputChannels, m_blockSizeFrames);
@@ -352,7 +358,6 @@ public:
             check.shouldSkip = false;
         }
 
-        // TODO: Ckeck supportsChannelLayout() here
         m_processor->resetWithEnvelopes();
         m_processor->prepareWithEnvelopes (m_sampleRateHz, m_numInputChannels, m_numOutputChannels, m_blockSizeFrames);
 
diff --git a/include/signals/hart_signal.hpp b/include/signals/hart_signal.hpp
index 33f7b16..f2ff8a6 100644
--- a/include/signals/hart_signal.hpp
+++ b/include/signals/hart_signal.hpp
@@ -197,6 +197,12 @@ public:
     /// @attention If you're not making a custom host, you probably don't need to call this method.
     void prepareWithDSPChain (double sampleRateHz, size_t numOutputChannels, size_t maxBlockSizeFrames)
     {
+        if (! supportsNumChannels (numOutputChannels))
+            HART_THROW_OR_RETURN_VOID (hart::ChannelLayoutError, "Signal does not support this number of channels");
+
+        if (! supportsSampleRate (sampleRateHz))
+            HART_THROW_OR_RETURN_VOID (hart::SampleRateError, "Signal does not support this sample rate");
+
         prepare (sampleRateHz, numOutputChannels, maxBlockSizeFrames);
         const size_t numInputChannels = numOutputChannels;
 
-- 
2.43.0


From 2f8fa0ff8cceba0f216cf841c162489b514d7dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:07 +0000
Subject: [PATCH 15/27] fix: report a task that throws as failed, and run the
 remaining ones

Any exception other than the two of its own terminated the whole run, without the
results and the failure messages collected so far.
---
 include/hart_test_registry.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/hart_test_registry.hpp b/include/hart_test_registry.hpp
index ab34844..90ef6b1 100644
--- a/include/hart_test_registry.hpp
+++ b/include/hart_test_registry.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <algorithm>  // shuffle()
+#include <exception>
 #include <iostream>
 #include <random>
 #include <string>
@@ -136,6 +137,16 @@ private:
             assertionFailMessage = e.what();
             assertionFailed = true;
         }
+        catch (const std::exception& e)
+        {
+            assertionFailMessage = std::string ("Unexpected exception: ") + e.what();
+            assertionFailed = true;
+        }
+        catch (...)
+        {
+            assertionFailMessage = "Unexpected exception";
+            assertionFailed = true;
+        }
 
         // TODO: Output test durations
 
-- 
2.43.0


From 3cf0278a9ec6230b665ff0fefaab9fdf5529fee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:07 +0000
Subject: [PATCH 16/27] fix: plot all the channels against the same time axis

Time was not rewound between channels, so each one was drawn after the end of the
previous one.
---
 include/hart_plot.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/hart_plot.hpp b/include/hart_plot.hpp
index 49bd379..ad7faeb 100644
--- a/include/hart_plot.hpp
+++ b/include/hart_plot.hpp
@@ -44,11 +44,10 @@ void plotData (const AudioBuffer<SampleType>& input, const AudioBuffer<SampleTyp
         outputSignalPlot.x.major (t);
     }
 
-    double timeSeconds = 0.0;
-
     for (size_t channel = 0; channel < input.getNumChannels(); ++channel)
     {
         auto &inputSignalLine = inputSignalPlot.line();
+        double timeSeconds = 0.0;
 
         for (size_t frame = 0; frame < input.getNumFrames(); ++frame)
         {
@@ -57,11 +56,10 @@ void plotData (const AudioBuffer<SampleType>& input, const AudioBuffer<SampleTyp
         }
     }
 
-    timeSeconds = 0.0;
-
     for (size_t channel = 0; channel < output.getNumChannels(); ++channel)
     {
         auto &outputSignalLine = outputSignalPlot.line();
+        double timeSeconds = 0.0;
 
         for (size_t frame = 0; frame < output.getNumFrames(); ++frame)
         {
-- 
2.43.0


From 7351a0f5400977d4753d898a5a569f038d38df7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:07 +0000
Subject: [PATCH 17/27] fix: report the level of negative expected samples

It was always printed as -120 dB.
---
 include/matchers/hart_equalsto.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/matchers/hart_equalsto.hpp b/include/matchers/hart_equalsto.hpp
index 1c2bd8a..85afa00 100644
--- a/include/matchers/hart_equalsto.hpp
+++ b/include/matchers/hart_equalsto.hpp
@@ -96,7 +96,7 @@ public:
         const SampleType m_differenceLinear = std::abs (m_failedExpectedValue - m_failedObservedValue);
         std::stringstream stream;
         stream << linPrecision << "Expected sample value: " << m_failedExpectedValue
-            << dbPrecision << " (" << ratioToDecibels (m_failedExpectedValue) << " dB)"
+            << dbPrecision << " (" << ratioToDecibels (std::abs (m_failedExpectedValue)) << " dB)"
             << linPrecision << ", difference: " << m_differenceLinear
             << dbPrecision << " (" << ratioToDecibels (m_differenceLinear) << " dB)";
 
-- 
2.43.0


From 7250231f3b35dfdc65432aa1522db1fcd1e32204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:07 +0000
Subject: [PATCH 18/27] fix: represent stock objects by their actual
 constructor arguments

SineSweep had a doubled comma and no initial phase, PeaksBelow printed an internal
threshold instead of its tolerance, GainLinear rounded to the decimals of decibels.
---
 include/dsp/hart_gainlinear.hpp      | 2 +-
 include/matchers/hart_peaksbelow.hpp | 4 +++-
 include/signals/hart_sine_sweep.hpp  | 6 ++++--
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/dsp/hart_gainlinear.hpp b/include/dsp/hart_gainlinear.hpp
index 5b70120..c44becc 100644
--- a/include/dsp/hart_gainlinear.hpp
+++ b/include/dsp/hart_gainlinear.hpp
@@ -96,7 +96,7 @@ public:
 
     virtual void represent (std::ostream& stream) const override
     {
-        stream << dbPrecision << "GainLinear (" << m_initialGainLinear << ")";
+        stream << linPrecision << "GainLinear (" << m_initialGainLinear << ")";
     }
 
     /// @param id Only @ref GainLinear::gainLinear is accepted
diff --git a/include/matchers/hart_peaksbelow.hpp b/include/matchers/hart_peaksbelow.hpp
index acf4326..abc6636 100644
--- a/include/matchers/hart_peaksbelow.hpp
+++ b/include/matchers/hart_peaksbelow.hpp
@@ -27,6 +27,7 @@ public:
     /// @param toleranceLinear Absolute tolerance for comparing frames, in linear domain (not decibels)
     PeaksBelow (double thresholdDb, double toleranceLinear = 1e-3):
         m_thresholdDb ((SampleType) thresholdDb),
+        m_toleranceLinear ((SampleType) toleranceLinear),
         m_thresholdLinear (static_cast<SampleType> (decibelsToRatio (thresholdDb) + toleranceLinear))
     {
     }
@@ -78,13 +79,14 @@ public:
     {
         stream << "PeaksBelow ("
             << dbPrecision << m_thresholdDb << "_dB, "
-            << linPrecision << m_thresholdLinear << ')';
+            << linPrecision << m_toleranceLinear << ')';
     }
 
     HART_MATCHER_DEFINE_COPY_AND_MOVE (PeaksBelow);
 
 private:
     const SampleType m_thresholdDb;
+    const SampleType m_toleranceLinear;
     const SampleType m_thresholdLinear;
 
     size_t m_failedFrame = 0;
diff --git a/include/signals/hart_sine_sweep.hpp b/include/signals/hart_sine_sweep.hpp
index cc2d727..f0d5b28 100644
--- a/include/signals/hart_sine_sweep.hpp
+++ b/include/signals/hart_sine_sweep.hpp
@@ -189,8 +189,10 @@ public:
             << hzPrecision
             << m_startFrequencyHz << "_Hz, "
             << m_endFrequencyHz << "_Hz, "
-            << (m_type == SweepType::linear ? ", SweepType::linear" : "SweepType::log")
-            << (m_loop == Loop::yes ? ", Loop::yes)" : ", Loop::no)");
+            << (m_type == SweepType::linear ? "SweepType::linear" : "SweepType::log")
+            << (m_loop == Loop::yes ? ", Loop::yes, " : ", Loop::no, ")
+            << radPrecision
+            << m_initialPhaseRadians << "_rad)";
     }
 
     HART_SIGNAL_DEFINE_COPY_AND_MOVE (SineSweep);
-- 
2.43.0


From e7628c0089d9975e2756991c0d402957df4d2e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:07 +0000
Subject: [PATCH 19/27] fix: make a sweep shorter than half a frame silent

Its length rounds to zero frames, which it never reached, so it threw
HartAssertException or went on forever.
---
 include/signals/hart_sine_sweep.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/signals/hart_sine_sweep.hpp b/include/signals/hart_sine_sweep.hpp
index f0d5b28..9ec6b96 100644
--- a/include/signals/hart_sine_sweep.hpp
+++ b/include/signals/hart_sine_sweep.hpp
@@ -134,7 +134,7 @@ public:
 
     void renderNextBlock (AudioBuffer<SampleType>& output) override
     {
-        if (m_generateSilence)
+        if (m_generateSilence || m_durationFrames == 0)
         {
             fillWithSilence (output);
             return;
-- 
2.43.0


From 5001d41c6c755abd93848faef518e66472ab0dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:07 +0000
Subject: [PATCH 20/27] fix: report failures to write wav and plot files

Write errors (e.g. a full disk) left a truncated file, and a plot that could not
even be opened was skipped, all without any error.
---
 include/hart_plot.hpp      | 10 +++++++++-
 include/hart_wavwriter.hpp | 14 +++++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/hart_plot.hpp b/include/hart_plot.hpp
index ad7faeb..4dcca4d 100644
--- a/include/hart_plot.hpp
+++ b/include/hart_plot.hpp
@@ -4,7 +4,10 @@
 #include "../dependencies/signalsmith/plot.h"
 #include "../dependencies/choc/platform/choc_ReenableAllWarnings.h"
 
+#include <fstream>
+
 #include "hart_audio_buffer.hpp"
+#include "hart_exceptions.hpp"
 
 namespace hart {
 
@@ -68,7 +71,12 @@ void plotData (const AudioBuffer<SampleType>& input, const AudioBuffer<SampleTyp
         }
     }
 
-    figure.write (plotFilePath);
+    std::ofstream file (plotFilePath);
+    figure.write (file);
+    file.close();
+
+    if (! file)
+        HART_THROW_OR_RETURN_VOID (hart::IOError, std::string ("Failed to write the plot file: ") + plotFilePath);
 }
 
 }  // namespace hart
diff --git a/include/hart_wavwriter.hpp b/include/hart_wavwriter.hpp
index 0fd9d9d..ef00e73 100644
--- a/include/hart_wavwriter.hpp
+++ b/include/hart_wavwriter.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <cmath>  // delete me
+#include <fstream>
 #include <string>
 #include <vector>
 
@@ -49,7 +50,10 @@ public:
                 break;
         }
 
-        if (! drwav_init_file_write (&drWavHandle, fileName.c_str(), &drWavFormat, nullptr))
+        void* wavData = nullptr;
+        size_t wavDataSize = 0;
+
+        if (! drwav_init_memory_write (&drWavHandle, &wavData, &wavDataSize, &drWavFormat, nullptr))
             HART_THROW_OR_RETURN_VOID (hart::IOError, "Failed to init WAV writer");
 
         switch (wavFormat)
@@ -130,6 +134,14 @@ public:
         }
 
         drwav_uninit (&drWavHandle);
+
+        std::ofstream file (fileName, std::ios::binary);
+        file.write (static_cast<const char*> (wavData), static_cast<std::streamsize> (wavDataSize));
+        file.close();
+        drwav_free (wavData, nullptr);
+
+        if (! file)
+            HART_THROW_OR_RETURN_VOID (hart::IOError, std::string ("Failed to write the wav file: ") + fileName);
     }
 };
 
-- 
2.43.0


From 140d02b07221c8a50224601bc483c05efc1b6037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:07 +0000
Subject: [PATCH 21/27] fix: reject frame ranges whose end does not fit in
 size_t

The sum wrapped around, and the audio was read out of bounds.
---
 include/hart_audio_buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hart_audio_buffer.hpp b/include/hart_audio_buffer.hpp
index b9fc275..2ec773d 100644
--- a/include/hart_audio_buffer.hpp
+++ b/include/hart_audio_buffer.hpp
@@ -140,7 +140,7 @@ public:
         if (channel >= m_numChannels)
             HART_THROW_OR_RETURN (hart::IndexError, "Invalid channel", (SampleType) 0);
 
-        if (startFrame + numFrames > m_numFrames || numFrames == 0)
+        if (numFrames > m_numFrames || startFrame > m_numFrames - numFrames || numFrames == 0)
             HART_THROW_OR_RETURN (hart::IndexError, "Invalid frame range", (SampleType) 0);
 
         const SampleType* start = m_channelPointers[channel] + startFrame;
@@ -155,7 +155,7 @@ public:
 
     SampleType getMagnitude (size_t startFrame, size_t numFrames) const
     {
-        if (startFrame + numFrames > m_numFrames || numFrames == 0)
+        if (numFrames > m_numFrames || startFrame > m_numFrames - numFrames || numFrames == 0)
                 HART_THROW_OR_RETURN (hart::IndexError, "Invalid frame range", (SampleType) 0);
 
         SampleType peakSampleAcrossAllChannels = (SampleType) 0;
-- 
2.43.0


From b1faad4f6e3f77b6ce33a6a8835fd614060ea251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:00 +0000
Subject: [PATCH 22/27] fix: draw silence and single frames in plots

An axis of zero width made all the coordinates of the panel NaN, and no lines were drawn.
---
 include/hart_plot.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/hart_plot.hpp b/include/hart_plot.hpp
index 4dcca4d..774e7a1 100644
--- a/include/hart_plot.hpp
+++ b/include/hart_plot.hpp
@@ -31,9 +31,18 @@ void plotData (const AudioBuffer<SampleType>& input, const AudioBuffer<SampleTyp
     outputSignalPlot.title ("Output audio");
 
     const SampleType inputSamplePeak = input.getMagnitude (0, input.getNumFrames());
-    inputSignalPlot.y.minor (inputSamplePeak).minor (-inputSamplePeak);
+    const SampleType inputRange = inputSamplePeak > 0 ? inputSamplePeak : (SampleType) 1;  // Silence needs some range as well
+    inputSignalPlot.y.minor (inputRange).minor (-inputRange);
     const SampleType outputSamplePeak = output.getMagnitude (0, output.getNumFrames());
-    outputSignalPlot.y.minor (outputSamplePeak).minor (-outputSamplePeak);
+    const SampleType outputRange = outputSamplePeak > 0 ? outputSamplePeak : (SampleType) 1;
+    outputSignalPlot.y.minor (outputRange).minor (-outputRange);
+
+    if (output.getNumFrames() == 1)
+    {
+        // So does a single point in time
+        inputSignalPlot.x.linear (0.0, timeIncrementSeconds);
+        outputSignalPlot.x.linear (0.0, timeIncrementSeconds);
+    }
 
     for (double t = 0.1; t < bufferSizeSeconds + 1e-6; t += 0.1)
     {
-- 
2.43.0


From 6c70203e6d8cdcd0af6e1867fe82eef359de45e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:48 +0000
Subject: [PATCH 23/27] fix: roundToSizeT() rounded odd values beyond 2^23
 (float), 2^52 (double) and those just below a half wrongly

---
 include/hart_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hart_utils.hpp b/include/hart_utils.hpp
index 47bbe9d..1dc044c 100644
--- a/include/hart_utils.hpp
+++ b/include/hart_utils.hpp
@@ -2,7 +2,7 @@
 
 #include <algorithm>  // min(), max()
 #include <cctype>  // isalpha()
-#include <cmath>  // pow()
+#include <cmath>  // pow(), round()
 #include <limits>  // infinity()
 #include <memory>
 #include <string>
@@ -81,7 +81,7 @@ inline static SampleType floatsNotEqual (SampleType a, SampleType b, SampleType
 template <typename SampleType>
 inline static size_t roundToSizeT (SampleType x)
 {
-    return static_cast<size_t> (x + (SampleType) 0.5);
+    return static_cast<size_t> (std::round (x));
 }
 
 /// @brief Keeps phase in 0..twoPi range
-- 
2.43.0


From f42fc00e86644e547bae414d6aee6ef413473807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:11 +0000
Subject: [PATCH 24/27] fix: assigning an audio buffer left an inconsistent
 size behind when it ran out of memory

---
 include/hart_audio_buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hart_audio_buffer.hpp b/include/hart_audio_buffer.hpp
index 2ec773d..f80304c 100644
--- a/include/hart_audio_buffer.hpp
+++ b/include/hart_audio_buffer.hpp
@@ -48,9 +48,9 @@ public:
         if (m_numChannels != other.m_numChannels)
             HART_THROW_OR_RETURN (hart::ChannelLayoutError, "Can't copy from a buffer with different number of channels", *this);
 
-        m_numFrames = other.m_numFrames;
-        m_frames = other.m_frames;
         m_channelPointers.resize (m_numChannels);
+        m_frames = other.m_frames;
+        m_numFrames = other.m_numFrames;
         updateChannelPointers();
 
         return *this;
-- 
2.43.0


From 7267ab223d935b4377af09a18f78ec3479410695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:11 +0000
Subject: [PATCH 25/27] fix: release the frames of a wav file when the signal
 can not be created

---
 include/signals/hart_wavfile.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/signals/hart_wavfile.hpp b/include/signals/hart_wavfile.hpp
index c338215..f907bfc 100644
--- a/include/signals/hart_wavfile.hpp
+++ b/include/signals/hart_wavfile.hpp
@@ -47,12 +47,16 @@ public:
         unsigned int numChannels;
         unsigned int wavSampleRateHz;
 
-        float* pcmFrames = drwav_open_file_and_read_pcm_frames_f32 (
-            toAbsolutePath (filePath).c_str(),
-            &numChannels,
-            &wavSampleRateHz,
-            &numFrames,
-            nullptr
+        const auto freePcmFrames = [] (float* frames) { drwav_free (frames, nullptr); };
+        const std::unique_ptr<float[], void (*) (float*)> pcmFrames (
+            drwav_open_file_and_read_pcm_frames_f32 (
+                toAbsolutePath (filePath).c_str(),
+                &numChannels,
+                &wavSampleRateHz,
+                &numFrames,
+                nullptr
+                ),
+            freePcmFrames
             );
 
         if (pcmFrames == nullptr)
@@ -64,8 +68,6 @@ public:
             for (size_t channel = 0; channel < numChannels; ++channel)
                 (*m_wavFrames)[channel][frame] = pcmFrames[frame * numChannels + channel];
 
-        drwav_free (pcmFrames, nullptr);
-
         m_wavSampleRateHz = static_cast<double> (wavSampleRateHz);
         m_wavNumChannels = static_cast<size_t> (numChannels);
     }
-- 
2.43.0


From d23615c9135328187a64462b2f74b0aaaa3e9489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:11 +0000
Subject: [PATCH 26/27] fix: release the wav data when writing it runs out of
 memory

---
 include/hart_wavwriter.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/hart_wavwriter.hpp b/include/hart_wavwriter.hpp
index ef00e73..8c7b4ee 100644
--- a/include/hart_wavwriter.hpp
+++ b/include/hart_wavwriter.hpp
@@ -2,6 +2,7 @@
 
 #include <cmath>  // delete me
 #include <fstream>
+#include <memory>
 #include <string>
 #include <vector>
 
@@ -52,10 +53,15 @@ public:
 
         void* wavData = nullptr;
         size_t wavDataSize = 0;
+        const auto freeWavData = [] (void** data) { drwav_free (*data, nullptr); };
+        const std::unique_ptr<void*, void (*) (void**)> wavDataOwner (&wavData, freeWavData);
 
         if (! drwav_init_memory_write (&drWavHandle, &wavData, &wavDataSize, &drWavFormat, nullptr))
             HART_THROW_OR_RETURN_VOID (hart::IOError, "Failed to init WAV writer");
 
+        const auto uninitHandle = [] (drwav* handle) { drwav_uninit (handle); };
+        std::unique_ptr<drwav, void (*) (drwav*)> handleOwner (&drWavHandle, uninitHandle);
+
         switch (wavFormat)
         {
             case WavFormat::float32:
@@ -133,12 +139,11 @@ public:
             }
         }
 
-        drwav_uninit (&drWavHandle);
+        handleOwner.reset();  // Completes the wav data
 
         std::ofstream file (fileName, std::ios::binary);
         file.write (static_cast<const char*> (wavData), static_cast<std::streamsize> (wavDataSize));
         file.close();
-        drwav_free (wavData, nullptr);
 
         if (! file)
             HART_THROW_OR_RETURN_VOID (hart::IOError, std::string ("Failed to write the wav file: ") + fileName);
-- 
2.43.0


From 0ebfdae328be26c0823bb4dd47df882763a8212d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:37 +0000
Subject: [PATCH 27/27] fix: negative initial phases of a sine wave were
 wrapped turn by turn, imprecisely or forever

---
 include/signals/hart_sinewave.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/signals/hart_sinewave.hpp b/include/signals/hart_sinewave.hpp
index 6c13f28..df2994d 100644
--- a/include/signals/hart_sinewave.hpp
+++ b/include/signals/hart_sinewave.hpp
@@ -75,8 +75,8 @@ private:
 
     void clampPhase()
     {
-        while (m_phaseRadians < 0)
-            m_phaseRadians += hart::twoPi;
+        if (m_phaseRadians < 0)
+            m_phaseRadians = std::fmod (m_phaseRadians, hart::twoPi) + hart::twoPi;
 
         if (m_phaseRadians > hart::twoPi)
             m_phaseRadians = std::fmod (m_phaseRadians, hart::twoPi);
-- 
2.43.0

