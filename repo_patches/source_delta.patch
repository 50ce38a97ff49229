From 95271916b46f7712fa65bb5d7106af10660909dc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:35:42 +0000
Subject: [PATCH 01/44] fix: a failed host read must not move the file position
 backwards

---
 arm-wt-22k/host_src/eas_hostmm.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arm-wt-22k/host_src/eas_hostmm.c b/arm-wt-22k/host_src/eas_hostmm.c
index 606f9fb..f1a0851 100644
--- a/arm-wt-22k/host_src/eas_hostmm.c
+++ b/arm-wt-22k/host_src/eas_hostmm.c
@@ -297,6 +297,12 @@ EAS_RESULT EAS_HWReadFile (EAS_HW_DATA_HANDLE hwInstData, EAS_FILE_HANDLE file,
     /* copy the data to the requested location, and advance the pointer */
     if (count) {
         count = file->readAt(file->handle, pBuffer, file->filePos, count);
+
+        /* a failed read must not move the file position */
+        if (count < 0) {
+            *pBytesRead = 0;
+            return EAS_ERROR_FILE_READ_FAILED;
+        }
     }
     file->filePos += count;
     *pBytesRead = count;
-- 
2.43.0


From d9b91d2bef46cc2cfb78f5a6c9de4758f036fdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:40 +0000
Subject: [PATCH 02/44] Allow the number of synthesizer channels to be
 overridden at build time

As for MAX_SYNTH_VOICES and MAX_VIRTUAL_SYNTHESIZERS: the defaults are
unchanged, a build may define a smaller number (used by the verification
harnesses to bound the state).
---
 arm-wt-22k/lib_src/eas_synth.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_synth.h b/arm-wt-22k/lib_src/eas_synth.h
index 6274b7d..e485b68 100644
--- a/arm-wt-22k/lib_src/eas_synth.h
+++ b/arm-wt-22k/lib_src/eas_synth.h
@@ -89,12 +89,16 @@
 #error "Unrecognized architecture option"
 #endif
 
+#ifndef NUM_SYNTH_CHANNELS
 #define NUM_SYNTH_CHANNELS      16
+#endif
 
 #define DEFAULT_SYNTH_VOICES    MAX_SYNTH_VOICES
 
 /* use the following values to specify unassigned channels or voices */
+#ifndef UNASSIGNED_SYNTH_CHANNEL
 #define UNASSIGNED_SYNTH_CHANNEL    NUM_SYNTH_CHANNELS
+#endif
 #define UNASSIGNED_SYNTH_VOICE      MAX_SYNTH_VOICES
 
 
-- 
2.43.0


From 589cbb6ee44e1b4e6c15bdc4cea692473dbf6eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 03/44] fix: all-notes-off must mute through the voice manager

VMAllNotesOff muted voices without taking them out of their polyphony
pool, so the pool count stayed too high for good, and it passed the
stream that sent the message even for a voice that still belonged to
another stream (one about to be reused), whose sound bank may differ.
VMMuteVoice does both correctly.
---
 arm-wt-22k/lib_src/eas_voicemgt.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 847ce6c..81f86f3 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1005,8 +1005,7 @@ void VMAllNotesOff (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_U8 channel)
                 ((pVoice->voiceState == eVoiceStateStolen) && (channel == pVoice->nextChannel)))
             {
                 /* this voice is assigned to the requested channel */
-                GetSynthPtr(voiceNum)->pfMuteVoice(pVoiceMgr, pSynth, pVoice, GetAdjustedVoiceNum(voiceNum));
-                pVoice->voiceState = eVoiceStateMuting;
+                VMMuteVoice(pVoiceMgr, voiceNum);
             }
         }
     }
-- 
2.43.0


From c48aee44ef204e9b074944c6aeec9fb2427f6f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 04/44] fix: do not count muting voices in the polyphony pools

A muting voice has already been taken out of its pool and is not taken
out again when it is freed.  VMMIPUpdateChannelMuting counted it, leaving
the pool count too high for good.
---
 arm-wt-22k/lib_src/eas_voicemgt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 81f86f3..2a37166 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -780,8 +780,8 @@ void VMMIPUpdateChannelMuting (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth)
             }
         }
 
-        /* not muted, count this voice */
-        else
+        /* not muted, count this voice unless it is already muting */
+        else if (pVoiceMgr->voices[i].voiceState != eVoiceStateMuting)
             pSynth->poolCount[pool]++;
     }
 }
-- 
2.43.0


From d256ce16aa854504df201e886dc2335524a75b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 05/44] fix: the sustain pedal must catch notes of its own
 channel state

VMCatchNotesForSustainPedal indexed the channel table with the channel
number combined with the virtual synthesizer number, out of bounds for
every stream but the first.
---
 arm-wt-22k/lib_src/eas_voicemgt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 2a37166..54082a2 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1219,7 +1219,7 @@ void VMCatchNotesForSustainPedal (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_U
         if (channel == pVoiceMgr->voices[voiceNum].channel)
         {
             if (eVoiceStateRelease == pVoiceMgr->voices[voiceNum].voiceState)
-                GetSynthPtr(voiceNum)->pfSustainPedal(pVoiceMgr, pSynth, &pVoiceMgr->voices[voiceNum], &pSynth->channels[channel], GetAdjustedVoiceNum(voiceNum));
+                GetSynthPtr(voiceNum)->pfSustainPedal(pVoiceMgr, pSynth, &pVoiceMgr->voices[voiceNum], &pSynth->channels[GET_CHANNEL(channel)], GetAdjustedVoiceNum(voiceNum));
         }
     }
 }
-- 
2.43.0


From 97da3c1628dc317cc4e57fee4d4f423b62447ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 06/44] fix: a retargeted voice must obey the muting of its new
 channel

VMRetargetStolenVoice looked at the scalable-polyphony muting of the
stream and channel the voice is leaving: it dropped notes of audible
channels and started notes on muted ones.
---
 arm-wt-22k/lib_src/eas_voicemgt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 54082a2..37deb88 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1371,8 +1371,8 @@ static EAS_BOOL VMRetargetStolenVoice (S_VOICE_MGR *pVoiceMgr, EAS_I32 voiceNum)
     /* establish some pointers */
     pVoice = &pVoiceMgr->voices[voiceNum];
     pSynth = pVoiceMgr->pSynth[GET_VSYNTH(pVoice->channel)];
-    pMIDIChannel = &pSynth->channels[pVoice->channel & 15];
     pNextSynth = pVoiceMgr->pSynth[GET_VSYNTH(pVoice->nextChannel)];
+    pMIDIChannel = &pNextSynth->channels[pVoice->nextChannel & 15];
 
 #ifdef _DEBUG_VM
 { /* dpp: EAS_ReportEx(_EAS_SEVERITY_INFO, "VMRetargetStolenVoice: retargeting stolen voice %d on channel %d\n",
@@ -1383,7 +1383,7 @@ static EAS_BOOL VMRetargetStolenVoice (S_VOICE_MGR *pVoiceMgr, EAS_I32 voiceNum)
 #endif
 
     /* make sure new channel hasn't been muted by SP-MIDI since the voice was stolen */
-    if ((pSynth->synthFlags & SYNTH_FLAG_SP_MIDI_ON) &&
+    if ((pNextSynth->synthFlags & SYNTH_FLAG_SP_MIDI_ON) &&
         (pMIDIChannel->channelFlags & CHANNEL_FLAG_MUTE))
     {
         VMFreeVoice(pVoiceMgr, pSynth, &pVoiceMgr->voices[voiceNum]);
-- 
2.43.0


From 7121aefbc4dd819d42f0fac1043501e41ebb4833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:59 +0000
Subject: [PATCH 07/44] fix: never take over a free voice for polyphony
 limiting

A free voice carries the channel number 16, which reads as channel 0 of
the second stream, and key 105.  A note-on of that key there could take
over a free voice: the voice was then freed twice and the voice counters
went below zero.
---
 arm-wt-22k/lib_src/eas_voicemgt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 37deb88..108f549 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1549,6 +1549,10 @@ EAS_BOOL VMCheckPolyphonyLimiting (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_
     /* examine each voice on this channel playing this note */
     for (voiceNum = lowVoice; voiceNum <= highVoice; voiceNum++)
     {
+        /* ignore free voices */
+        if (pVoiceMgr->voices[voiceNum].voiceState == eVoiceStateFree)
+            continue;
+
         /* check stolen notes separately */
         if (pVoiceMgr->voices[voiceNum].voiceState != eVoiceStateStolen)
         {
-- 
2.43.0


From 24c8bcd6fb16539672847eba576f4a24b08dc2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:59 +0000
Subject: [PATCH 08/44] fix: a stream's polyphony limit must apply to that
 stream's voices

VMSetPolyphony selected voices by nextChannel, which is meaningful only
for stolen voices: the limit was not enforced on the first stream, and on
the second stream it muted voices of the first.
---
 arm-wt-22k/lib_src/eas_voicemgt.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 108f549..8cd2c8b 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -168,6 +168,19 @@ EAS_INLINE EAS_U8 VSynthToChannel (S_SYNTH *pSynth, EAS_U8 channel)
     return channel | (pSynth->vSynthNum << 4);
 }
 
+/*----------------------------------------------------------------------------
+ * TargetChannel()
+ *----------------------------------------------------------------------------
+ * Purpose:
+ * Returns the channel a voice is playing for: a stolen voice already counts
+ * for the note that is waiting for it
+ *----------------------------------------------------------------------------
+*/
+EAS_INLINE EAS_U8 TargetChannel (const S_SYNTH_VOICE *pVoice)
+{
+    return (pVoice->voiceState == eVoiceStateStolen) ? pVoice->nextChannel : pVoice->channel;
+}
+
 /*----------------------------------------------------------------------------
  * InitVoice()
  *----------------------------------------------------------------------------
@@ -3364,7 +3377,7 @@ EAS_RESULT VMSetPolyphony (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 poly
     for (i = 0; i < MAX_SYNTH_VOICES; i++)
     {
         /* this synth? */
-        if (GET_VSYNTH(pVoiceMgr->voices[i].nextChannel) != pSynth->vSynthNum)
+        if (GET_VSYNTH(TargetChannel(&pVoiceMgr->voices[i])) != pSynth->vSynthNum)
             continue;
 
         /* is voice active? */
@@ -3386,7 +3399,11 @@ EAS_RESULT VMSetPolyphony (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 poly
             pVoice = &pVoiceMgr->voices[i];
 
             /* this synth? */
-            if (GET_VSYNTH(pVoice->nextChannel) != pSynth->vSynthNum)
+            if (GET_VSYNTH(TargetChannel(pVoice)) != pSynth->vSynthNum)
+                continue;
+
+            /* is voice active? */
+            if ((pVoice->voiceState == eVoiceStateFree) || (pVoice->voiceState == eVoiceStateMuting))
                 continue;
 
             /* if voice is stolen or just started, reduce the likelihood it will be stolen */
@@ -3396,7 +3413,7 @@ EAS_RESULT VMSetPolyphony (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 poly
                 currentPriority = 128 - pVoice->nextVelocity;
 
                 /* include channel priority */
-                currentPriority += pSynth->channels[GET_CHANNEL(pVoice->nextChannel)].pool << CHANNEL_PRIORITY_STEAL_WEIGHT;
+                currentPriority += pSynth->channels[GET_CHANNEL(TargetChannel(pVoice))].pool << CHANNEL_PRIORITY_STEAL_WEIGHT;
             }
             else
             {
@@ -3409,7 +3426,7 @@ EAS_RESULT VMSetPolyphony (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 poly
                     ((EAS_I32) pVoice->gain >> (12 - NOTE_GAIN_STEAL_WEIGHT));
 
                 /* include channel priority */
-                currentPriority += pSynth->channels[GET_CHANNEL(pVoice->nextChannel)].pool << CHANNEL_PRIORITY_STEAL_WEIGHT;
+                currentPriority += pSynth->channels[GET_CHANNEL(TargetChannel(pVoice))].pool << CHANNEL_PRIORITY_STEAL_WEIGHT;
             }
 
             /* is this the best choice so far? */
-- 
2.43.0


From 2a812fa1464f918c2c923e1a8b7255bcc718b12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:59 +0000
Subject: [PATCH 09/44] fix: handle a deferred note-off only for the stream's
 own voices

VMDeferredStopNote went through the voices of all streams, applying the
sustain pedal and the sound bank of one stream to the notes of another.
With the pedal down it also used the sustain-pedal hook meant for notes
in their release: it does nothing for a note whose attack has not reached
the sustain level, so the note-off was lost and the note never ended.
---
 arm-wt-22k/lib_src/eas_voicemgt.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 8cd2c8b..1e2e4fe 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1053,6 +1053,10 @@ void VMDeferredStopNote (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth)
     /* check each voice to see if it requires a deferred note off */
     for (voiceNum=0; voiceNum < MAX_SYNTH_VOICES; voiceNum++)
     {
+        /* ignore voices of other synths */
+        if (GET_VSYNTH(TargetChannel(&pVoiceMgr->voices[voiceNum])) != pSynth->vSynthNum)
+            continue;
+
         if (pVoiceMgr->voices[voiceNum].voiceFlags & VOICE_FLAG_DEFER_MIDI_NOTE_OFF)
         {
             /* check if this voice was stolen */
@@ -1108,7 +1112,7 @@ void VMDeferredStopNote (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth)
                 /* check if sustain pedal is on */
                 if (pSynth->channels[channel].channelFlags & CHANNEL_FLAG_SUSTAIN_PEDAL)
                 {
-                    GetSynthPtr(voiceNum)->pfSustainPedal(pVoiceMgr, pSynth, &pVoiceMgr->voices[voiceNum], &pSynth->channels[channel], GetAdjustedVoiceNum(voiceNum));
+                    pVoiceMgr->voices[voiceNum].voiceFlags |= VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF;
                 }
 
                 /* release this voice */
-- 
2.43.0


From 2e270a060eea0e4161074a4748338504bae21edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:59 +0000
Subject: [PATCH 10/44] fix: keep the voice counters right when a stream's
 voices are dropped

A forced reset or the closing of a stream cleared stolen voices without
correcting the counters of the stream they belonged to, and left voices
of the closed stream that were promised to another stream pointing at it
(a null pointer at the next render).  Free such voices properly, and
start the note of the other stream right away.
---
 arm-wt-22k/lib_src/eas_voicemgt.c | 33 +++++++++++++++++--------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 1e2e4fe..7303a0f 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -168,6 +168,9 @@ EAS_INLINE EAS_U8 VSynthToChannel (S_SYNTH *pSynth, EAS_U8 channel)
     return channel | (pSynth->vSynthNum << 4);
 }
 
+static void VMFreeVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, S_SYNTH_VOICE *pVoice);
+static EAS_BOOL VMRetargetStolenVoice (S_VOICE_MGR *pVoiceMgr, EAS_I32 voiceNum);
+
 /*----------------------------------------------------------------------------
  * TargetChannel()
  *----------------------------------------------------------------------------
@@ -459,11 +462,7 @@ void VMReset (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_BOOL force)
 
     /* force voices to off state - may cause audio artifacts */
     if (force)
-    {
-        pVoiceMgr->activeVoices -= pSynth->numActiveVoices;
-        pSynth->numActiveVoices = 0;
         VMInitializeAllVoices(pVoiceMgr, pSynth->vSynthNum);
-    }
     else
         VMMuteAllVoices(pVoiceMgr, pSynth);
 
@@ -603,16 +602,20 @@ void VMInitializeAllVoices (S_VOICE_MGR *pVoiceMgr, EAS_INT vSynthNum)
     /* initialize the voice manager parameters */
     for (i = 0; i < MAX_SYNTH_VOICES; i++)
     {
-        if (pVoiceMgr->voices[i].voiceState != eVoiceStateStolen)
-        {
-            if (GET_VSYNTH(pVoiceMgr->voices[i].channel) == vSynthNum)
-                InitVoice(&pVoiceMgr->voices[i]);
-        }
-        else
-        {
-            if (GET_VSYNTH(pVoiceMgr->voices[i].nextChannel) == vSynthNum)
-                InitVoice(&pVoiceMgr->voices[i]);
-        }
+        S_SYNTH_VOICE *pVoice = &pVoiceMgr->voices[i];
+        EAS_INT owner;
+
+        if (pVoice->voiceState == eVoiceStateFree)
+            continue;
+        owner = GET_VSYNTH(pVoice->channel);
+
+        /* voice is playing, or about to play, for this synth */
+        if (GET_VSYNTH(TargetChannel(pVoice)) == vSynthNum)
+            VMFreeVoice(pVoiceMgr, pVoiceMgr->pSynth[owner], pVoice);
+
+        /* voice is waiting to be handed over to another synth */
+        else if (owner == vSynthNum)
+            VMRetargetStolenVoice(pVoiceMgr, i);
     }
 }
 
@@ -3021,8 +3024,8 @@ EAS_RESULT VMRender (S_VOICE_MGR *pVoiceMgr, EAS_I32 numSamples, EAS_I32 *pMixBu
             { /* dpp: EAS_ReportEx(_EAS_SEVERITY_INFO, "VMAddSamples: complete the reset process\n"); */ }
 #endif
 
-            VMInitializeAllChannels(pVoiceMgr, pSynth);
             VMInitializeAllVoices(pVoiceMgr, pSynth->vSynthNum);
+            VMInitializeAllChannels(pVoiceMgr, pSynth);
 
             /* clear the reset flag */
             pSynth->synthFlags &= ~SYNTH_FLAG_RESET_IS_REQUESTED;
-- 
2.43.0


From 28eee76f406f4bb646b52d4b53da78380b3e851a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 11/44] fix: keep every bit of the RPN MSB when the LSB is
 selected

The MSB is stored in bits 7..13, but selecting the LSB kept only bits
8..14: RPN 1/0 was taken for RPN 0/0 and changed the bend range.
---
 arm-wt-22k/lib_src/eas_voicemgt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 7303a0f..586686b 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -2469,7 +2469,7 @@ EAS_RESULT VMUpdateRPNStateMachine (S_SYNTH *pSynth, EAS_U8 channel, EAS_U8 cont
         break;
     case MIDI_CONTROLLER_SELECT_RPN_LSB:
         pChannel->registeredParam =
-            (pChannel->registeredParam & 0x7F00) | value;
+            (pChannel->registeredParam & 0x3F80) | value;
         break;
     case MIDI_CONTROLLER_ENTER_DATA_MSB:
         switch (pChannel->registeredParam)
-- 
2.43.0


From e9b9dcaceb7b7ac49adb4b7c91cb0f18e122376c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:45 +0000
Subject: [PATCH 12/44] fix: resetting the controllers must release the notes
 held by the pedal

Controller 121 cleared the sustain flag but left the notes whose note-off
had been deferred sounding; the pedal release that follows found the flag
clear and ignored them.
---
 arm-wt-22k/lib_src/eas_voicemgt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 586686b..5d51e09 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -2358,6 +2358,8 @@ void VMControlChange (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_U8 channel, E
         pChannel->expression = DEFAULT_EXPRESSION;
 
         /* turn the sustain pedal off as default/reset */
+        if (pChannel->channelFlags & CHANNEL_FLAG_SUSTAIN_PEDAL)
+            VMReleaseAllDeferredNoteOffs(pVoiceMgr, pSynth, channel);
         pChannel->channelFlags &= ~CHANNEL_FLAG_SUSTAIN_PEDAL;
         pChannel->pitchBend = DEFAULT_PITCH_BEND;
 
-- 
2.43.0


From 8ca114bf80d90b463b35d9ee98cbc2a0c362f54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:18 +0000
Subject: [PATCH 13/44] fix: a looped sample is not read before its loop start

---
 arm-wt-22k/lib_src/eas_wtengine.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_wtengine.c b/arm-wt-22k/lib_src/eas_wtengine.c
index dc8d864..9f82fe5 100644
--- a/arm-wt-22k/lib_src/eas_wtengine.c
+++ b/arm-wt-22k/lib_src/eas_wtengine.c
@@ -189,6 +189,7 @@ void WT_Interpolate (S_WT_VOICE *pWTVoice, S_WT_INT_FRAME *pWTIntFrame)
     EAS_I32 phaseFrac;
     EAS_I32 acc0;
     const EAS_SAMPLE *pSamples;
+    const EAS_SAMPLE *loopStart;
     const EAS_SAMPLE *loopEnd;
     EAS_I32 samp1;
     EAS_I32 samp2;
@@ -207,6 +208,7 @@ void WT_Interpolate (S_WT_VOICE *pWTVoice, S_WT_INT_FRAME *pWTIntFrame)
     }
     pOutputBuffer = pWTIntFrame->pAudioBuffer;
 
+    loopStart = (const EAS_SAMPLE*) pWTVoice->loopStart;
     loopEnd = (const EAS_SAMPLE*) pWTVoice->loopEnd + 1;
     pSamples = (const EAS_SAMPLE*) pWTVoice->phaseAccum;
     /*lint -e{713} truncation is OK */
@@ -218,10 +220,10 @@ void WT_Interpolate (S_WT_VOICE *pWTVoice, S_WT_INT_FRAME *pWTIntFrame)
     /*lint -e{701} <avoid multiply for performance>*/
     samp1 = pSamples[0] << 8;
     /*lint -e{701} <avoid multiply for performance>*/
-    samp2 = pSamples[1] << 8;
+    samp2 = (&pSamples[1] < loopEnd ? pSamples[1] : *loopStart) << 8;
 #else
     samp1 = pSamples[0];
-    samp2 = pSamples[1];
+    samp2 = &pSamples[1] < loopEnd ? pSamples[1] : *loopStart;
 #endif
 
     while (numSamples--) {
@@ -249,10 +251,10 @@ void WT_Interpolate (S_WT_VOICE *pWTVoice, S_WT_INT_FRAME *pWTIntFrame)
             pSamples +=  nextSamplePhaseInc;
             phaseFrac = phaseFrac & PHASE_FRAC_MASK;
 
-            /* decrementing pSamples by entire buffer length until second pSample is within */
-            /* loopEnd                                                                      */
-            while (&pSamples[1] >= loopEnd) {
-                pSamples -= (loopEnd - (const EAS_SAMPLE*)pWTVoice->loopStart);
+            /* decrementing pSamples by entire loop length until it is within the loop, */
+            /* the last sample of the loop is followed by the first one                 */
+            while (pSamples >= loopEnd) {
+                pSamples -= (loopEnd - loopStart);
             }
 
             /* fetch new samples */
@@ -260,10 +262,10 @@ void WT_Interpolate (S_WT_VOICE *pWTVoice, S_WT_INT_FRAME *pWTIntFrame)
             /*lint -e{701} <avoid multiply for performance>*/
             samp1 = pSamples[0] << 8;
             /*lint -e{701} <avoid multiply for performance>*/
-            samp2 = pSamples[1] << 8;
+            samp2 = (&pSamples[1] < loopEnd ? pSamples[1] : *loopStart) << 8;
 #else
             samp1 = pSamples[0];
-            samp2 = pSamples[1];
+            samp2 = &pSamples[1] < loopEnd ? pSamples[1] : *loopStart;
 #endif
         }
     }
-- 
2.43.0


From 553ec99f5337cc6bdced20b0aad691f2e1c4e6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:31 +0000
Subject: [PATCH 14/44] fix: bypassed effects copy the input to the output, not
 the other way round

---
 arm-wt-22k/lib_src/eas_chorus.c | 2 +-
 arm-wt-22k/lib_src/eas_reverb.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_chorus.c b/arm-wt-22k/lib_src/eas_chorus.c
index 4a2c8d0..5ac13d8 100644
--- a/arm-wt-22k/lib_src/eas_chorus.c
+++ b/arm-wt-22k/lib_src/eas_chorus.c
@@ -273,7 +273,7 @@ static void ChorusProcess (EAS_VOID_PTR pInstData, EAS_PCM *pSrc, EAS_PCM *pDst,
     if (pChorusData->bypass == EAS_TRUE || pChorusData->m_nLevel == 0)
     {
         if (pSrc != pDst)
-            EAS_HWMemCpy(pSrc, pDst, numSamples * NUM_OUTPUT_CHANNELS * (EAS_I32) sizeof(EAS_PCM));
+            EAS_HWMemCpy(pDst, pSrc, numSamples * NUM_OUTPUT_CHANNELS * (EAS_I32) sizeof(EAS_PCM));
         return;
     }
 
diff --git a/arm-wt-22k/lib_src/eas_reverb.c b/arm-wt-22k/lib_src/eas_reverb.c
index cd5befe..700ed2f 100644
--- a/arm-wt-22k/lib_src/eas_reverb.c
+++ b/arm-wt-22k/lib_src/eas_reverb.c
@@ -283,7 +283,7 @@ static void ReverbProcess(EAS_VOID_PTR pInstData, EAS_PCM *pSrc, EAS_PCM *pDst,
         (pReverbData->m_nWet == 0 && pReverbData->m_nDry == 32767))
     {
         if (pSrc != pDst)
-            EAS_HWMemCpy(pSrc, pDst, numSamples * NUM_OUTPUT_CHANNELS * (EAS_I32) sizeof(EAS_PCM));
+            EAS_HWMemCpy(pDst, pSrc, numSamples * NUM_OUTPUT_CHANNELS * (EAS_I32) sizeof(EAS_PCM));
         return;
     }
 
-- 
2.43.0


From d6979c779e5de43a2fbe5ffd4de5983afef0e17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:31 +0000
Subject: [PATCH 15/44] fix: a reverb preset takes effect when it is set

It was applied by the next rendered buffer, overwriting any wet or dry level
set in between; before the first buffer the preset read back was not a legal one.
---
 arm-wt-22k/lib_src/eas_reverb.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_reverb.c b/arm-wt-22k/lib_src/eas_reverb.c
index 700ed2f..293aca5 100644
--- a/arm-wt-22k/lib_src/eas_reverb.c
+++ b/arm-wt-22k/lib_src/eas_reverb.c
@@ -170,7 +170,7 @@ static EAS_RESULT ReverbInit(EAS_DATA_HANDLE pEASData, EAS_VOID_PTR *pInstData)
 
     pReverbData->m_nNextRoom = 1;
 
-    pReverbData->m_nCurrentRoom = pReverbData->m_nNextRoom + 1; // force update on first iteration
+    pReverbData->m_nCurrentRoom = pReverbData->m_nNextRoom;
 
     pReverbData->m_nWet = REVERB_DEFAULT_WET;
 
@@ -877,6 +877,7 @@ static EAS_RESULT ReverbSetParam (EAS_VOID_PTR pInstData, EAS_I32 param, EAS_I32
                 value!=EAS_PARAM_REVERB_CHAMBER && value!=EAS_PARAM_REVERB_ROOM)
                 return EAS_ERROR_INVALID_PARAMETER;
             p->m_nNextRoom = (EAS_I16)value;
+            ReverbUpdateRoom(p);
             break;
         case EAS_PARAM_REVERB_WET:
             if(value>EAS_REVERB_WET_MAX || value<EAS_REVERB_WET_MIN)
-- 
2.43.0


From 6835bbf18de15c507765ccff9ccf4b600d6e41b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:31 +0000
Subject: [PATCH 16/44] fix: chorus rate and depth are converted when set,
 presets take effect at once

The rate and depth set by the application were used unconverted, while the
presets' were; reading them back returned the converted values of the preset.
---
 arm-wt-22k/lib_src/eas_chorus.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_chorus.c b/arm-wt-22k/lib_src/eas_chorus.c
index 5ac13d8..157cb44 100644
--- a/arm-wt-22k/lib_src/eas_chorus.c
+++ b/arm-wt-22k/lib_src/eas_chorus.c
@@ -163,6 +163,9 @@ static EAS_RESULT ChorusInit (EAS_DATA_HANDLE pEASData, EAS_VOID_PTR *pInstData)
     pChorusData->m_nRate =  pPreset->m_nRate;
     pChorusData->m_nDepth = pPreset->m_nDepth;
 
+    //keep the unconverted values, for reading the parameters back
+    pChorusData->pPreset = *pPreset;
+
     pChorusData->m_nRate = (EAS_I16)
         ((((EAS_I32)CHORUS_SHAPE_SIZE<<16)/(20*(EAS_I32)_OUTPUT_SAMPLE_RATE)) * pChorusData->m_nRate);
 
@@ -442,10 +445,10 @@ static EAS_RESULT ChorusGetParam (EAS_VOID_PTR pInstData, EAS_I32 param, EAS_I32
             *pValue = (EAS_I8) p->m_nCurrentChorus;
             break;
         case EAS_PARAM_CHORUS_RATE:
-            *pValue = (EAS_I32) p->m_nRate;
+            *pValue = (EAS_I32) p->pPreset.m_nRate;
             break;
         case EAS_PARAM_CHORUS_DEPTH:
-            *pValue = (EAS_I32) p->m_nDepth;
+            *pValue = (EAS_I32) p->pPreset.m_nDepth;
             break;
         case EAS_PARAM_CHORUS_LEVEL:
             *pValue = (EAS_I32) p->m_nLevel;
@@ -491,16 +494,23 @@ static EAS_RESULT ChorusSetParam (EAS_VOID_PTR pInstData, EAS_I32 param, EAS_I32
                 value!=EAS_PARAM_CHORUS_PRESET3 && value!=EAS_PARAM_CHORUS_PRESET4)
                 return EAS_ERROR_INVALID_PARAMETER;
             p->m_nNextChorus = (EAS_I8)value;
+            ChorusUpdate(p);
             break;
         case EAS_PARAM_CHORUS_RATE:
             if(value<EAS_CHORUS_RATE_MIN || value>EAS_CHORUS_RATE_MAX)
                 return EAS_ERROR_INVALID_PARAMETER;
-            p->m_nRate = (EAS_I16) value;
+            //convert from steps of .05 Hz to phase increment, see ChorusInit
+            p->pPreset.m_nRate = (EAS_I16) value;
+            p->m_nRate = (EAS_I16)
+                ((((EAS_I32)CHORUS_SHAPE_SIZE<<16)/(20*(EAS_I32)_OUTPUT_SAMPLE_RATE)) * value);
             break;
         case EAS_PARAM_CHORUS_DEPTH:
             if(value<EAS_CHORUS_DEPTH_MIN || value>EAS_CHORUS_DEPTH_MAX)
                 return EAS_ERROR_INVALID_PARAMETER;
-            p->m_nDepth = (EAS_I16) value;
+            //convert from steps of .05 ms to samples, see ChorusInit
+            p->pPreset.m_nDepth = (EAS_I16) value;
+            /*lint -e{704} use shift for performance */
+            p->m_nDepth = (EAS_I16) ((((value * _OUTPUT_SAMPLE_RATE)>>5) * 105) >> 16);
             break;
         case EAS_PARAM_CHORUS_LEVEL:
             if(value<EAS_CHORUS_LEVEL_MIN || value>EAS_CHORUS_LEVEL_MAX)
@@ -590,6 +600,9 @@ static EAS_RESULT ChorusUpdate(S_CHORUS_OBJECT *pChorusData)
     pChorusData->m_nRate =  pPreset->m_nRate;
     pChorusData->m_nDepth = pPreset->m_nDepth;
 
+    //keep the unconverted values, for reading the parameters back
+    pChorusData->pPreset = *pPreset;
+
     pChorusData->m_nRate = (EAS_I16)
         ((((EAS_I32)CHORUS_SHAPE_SIZE<<16)/(20*(EAS_I32)_OUTPUT_SAMPLE_RATE)) * pChorusData->m_nRate);
 
-- 
2.43.0


From 8f80e60d3a90a3cdc4af6b881e1d7d7bcd0851ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:24 +0000
Subject: [PATCH 17/44] fix: do not clear a failed SMF reader allocation

---
 arm-wt-22k/lib_src/eas_smf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index 4f8db9d..a2cc8a3 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -141,7 +141,8 @@ EAS_RESULT SMF_CheckFileType (S_EAS_DATA *pEASData, EAS_FILE_HANDLE fileHandle,
     else
     {
         pSMFData = EAS_HWMalloc(pEASData->hwInstData, sizeof(S_SMF_DATA));
-        EAS_HWMemSet((void *)pSMFData,0, sizeof(S_SMF_DATA));
+        if (pSMFData)
+            EAS_HWMemSet((void *)pSMFData,0, sizeof(S_SMF_DATA));
     }
     if (!pSMFData)
         return EAS_ERROR_MALLOC_FAILED;
-- 
2.43.0


From ab7b2b0c4c0c04d12c1ff9f4ed3dafea39c7bcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:24 +0000
Subject: [PATCH 18/44] fix: refuse to prepare an SMF file again after its
 header was rejected

---
 arm-wt-22k/lib_src/eas_smf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index a2cc8a3..966961d 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -195,7 +195,11 @@ EAS_RESULT SMF_Prepare (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
 
     /* parse the file header and setup the individual stream parsers */
     if ((result = SMF_ParseHeader(pEASData->hwInstData, pSMFData)) != EAS_SUCCESS)
+    {
+        /* the file cannot be played, don't allow another attempt to prepare it */
+        pSMFData->state = EAS_STATE_ERROR;
         return result;
+    }
 
     /* ready to play */
     pSMFData->state = EAS_STATE_READY;
-- 
2.43.0


From a64192d756ac326ba82c24c3569d48de8e895fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:24 +0000
Subject: [PATCH 19/44] fix: do not end an SMF file when the next event is
 after tick 0x7ffffff

---
 arm-wt-22k/lib_src/eas_smf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index 966961d..eb39a66 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -340,7 +340,7 @@ EAS_RESULT SMF_Event (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData, EAS_INT pars
     }
 
     /* find next event in all streams */
-    temp = 0x7ffffff;
+    temp = 0x7fffffff;
     pSMFData->nextStream = NULL;
     for (i = 0; i < pSMFData->numStreams; i++)
     {
-- 
2.43.0


From dcba6127f341db70b2983ec8816473b799f224a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:24 +0000
Subject: [PATCH 20/44] fix: header search missed a signature after a repeated
 first byte

---
 arm-wt-22k/lib_src/eas_public.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index a0b183c..14a1b21 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -2630,7 +2630,8 @@ EAS_RESULT EAS_SearchFile (S_EAS_DATA *pEASData, EAS_FILE_HANDLE fileHandle, con
             }
         }
         else
-            index = 0;
+            /* the byte that did not match may start the string */
+            index = (c == searchString[0]) ? 1 : 0;
     }
     return EAS_SUCCESS;
 }
-- 
2.43.0


From 6c27f4c1a70bb7f8e144ed00312d932605e66dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:19 +0000
Subject: [PATCH 21/44] fix: limit the default SMF tick length like a tempo
 event does

---
 arm-wt-22k/lib_src/eas_smf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index eb39a66..ce3eae8 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -1135,7 +1135,8 @@ EAS_RESULT SMF_ParseHeader (EAS_HW_DATA_HANDLE hwInstData, S_SMF_DATA *pSMFData)
         { /* dpp: EAS_ReportEx(_EAS_SEVERITY_WARNING,"No support for SMPTE code timebase\n"); */ }
     else
         pSMFData->ppqn = (division & 0x7fff);
-    pSMFData->tickConv = (EAS_U16) (((SMF_DEFAULT_TIMEBASE * 1024) / pSMFData->ppqn + 500) / 1000);
+    temp = ((SMF_DEFAULT_TIMEBASE * 1024) / pSMFData->ppqn + 500) / 1000;
+    pSMFData->tickConv = (EAS_U16) ((temp > 65535) ? 65535 : temp);
 
     /* dynamic memory allocation, allocate memory for streams */
     if (pSMFData->streams == NULL)
-- 
2.43.0


From fc57840c36749570d3282f77d97d4ed8303aea94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:38 +0000
Subject: [PATCH 22/44] fix: resetting an SMF file restores the tempo, timing
 and parser state it was prepared with

---
 arm-wt-22k/lib_src/eas_midi.c |  2 ++
 arm-wt-22k/lib_src/eas_smf.c  | 35 ++++++++++++++++++++++++++++++++---
 2 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_midi.c b/arm-wt-22k/lib_src/eas_midi.c
index 8cb043a..d4dcc2c 100644
--- a/arm-wt-22k/lib_src/eas_midi.c
+++ b/arm-wt-22k/lib_src/eas_midi.c
@@ -91,8 +91,10 @@ void EAS_InitMIDIStream (S_MIDI_STREAM *pMIDIStream)
 {
     pMIDIStream->byte3 = EAS_FALSE;
     pMIDIStream->pending = EAS_FALSE;
+    pMIDIStream->sysExState = 0;
     pMIDIStream->runningStatus = 0;
     pMIDIStream->status = 0;
+    pMIDIStream->flags = 0;
 }
 
 /*----------------------------------------------------------------------------
diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index ce3eae8..570eb69 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -60,6 +60,7 @@ static EAS_RESULT SMF_ParseMetaEvent (S_EAS_DATA *pEASData, S_SMF_DATA *pSMFData
 static EAS_RESULT SMF_ParseSysEx (S_EAS_DATA *pEASData, S_SMF_DATA *pSMFData, S_SMF_STREAM *pSMFStream, EAS_U8 f0, EAS_INT parserMode);
 static EAS_RESULT SMF_ParseEvent (S_EAS_DATA *pEASData, S_SMF_DATA *pSMFData, S_SMF_STREAM *pSMFStream, EAS_INT parserMode);
 static EAS_RESULT SMF_GetDeltaTime (EAS_HW_DATA_HANDLE hwInstData, S_SMF_STREAM *pSMFStream);
+static void SMF_SetDefaultTempo (S_SMF_DATA *pSMFData);
 static void SMF_UpdateTime (S_SMF_DATA *pSMFData, EAS_U32 ticks);
 
 
@@ -493,8 +494,10 @@ EAS_RESULT SMF_Reset (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
 
     pSMFData = (S_SMF_DATA*) pInstData;
 
-    /* reset time to zero */
+    /* reset time to zero, and the tempo and setup flags to their initial state */
     pSMFData->time = 0;
+    SMF_SetDefaultTempo(pSMFData);
+    pSMFData->flags &= SMF_FLAGS_JET_STREAM;
 
     /* reset the synth */
     VMReset(pEASData->pVoiceMgr, pSMFData->pSynth, EAS_TRUE);
@@ -525,6 +528,9 @@ EAS_RESULT SMF_Reset (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
         }
     }
 
+    /* update the time of the next event */
+    if (pSMFData->nextStream)
+        SMF_UpdateTime(pSMFData, pSMFData->nextStream->ticks);
 
     pSMFData->state = EAS_STATE_READY;
     return EAS_SUCCESS;
@@ -1135,8 +1141,7 @@ EAS_RESULT SMF_ParseHeader (EAS_HW_DATA_HANDLE hwInstData, S_SMF_DATA *pSMFData)
         { /* dpp: EAS_ReportEx(_EAS_SEVERITY_WARNING,"No support for SMPTE code timebase\n"); */ }
     else
         pSMFData->ppqn = (division & 0x7fff);
-    temp = ((SMF_DEFAULT_TIMEBASE * 1024) / pSMFData->ppqn + 500) / 1000;
-    pSMFData->tickConv = (EAS_U16) ((temp > 65535) ? 65535 : temp);
+    SMF_SetDefaultTempo(pSMFData);
 
     /* dynamic memory allocation, allocate memory for streams */
     if (pSMFData->streams == NULL)
@@ -1232,6 +1237,30 @@ EAS_RESULT SMF_ParseHeader (EAS_HW_DATA_HANDLE hwInstData, S_SMF_DATA *pSMFData)
         return result;
 }
 
+/*----------------------------------------------------------------------------
+ * SMF_SetDefaultTempo()
+ *----------------------------------------------------------------------------
+ * Purpose:
+ * Set the tick to millisecond conversion for 120 bpm
+ *
+ * Inputs:
+ *
+ *
+ * Outputs:
+ *
+ *
+ * Side Effects:
+ *
+ *----------------------------------------------------------------------------
+*/
+static void SMF_SetDefaultTempo (S_SMF_DATA *pSMFData)
+{
+    EAS_U32 temp;
+
+    temp = ((SMF_DEFAULT_TIMEBASE * 1024) / pSMFData->ppqn + 500) / 1000;
+    pSMFData->tickConv = (EAS_U16) ((temp > 65535) ? 65535 : temp);
+}
+
 /*----------------------------------------------------------------------------
  * SMF_UpdateTime()
  *----------------------------------------------------------------------------
-- 
2.43.0


From f46a5ed98c2c265d04615ca4fa598c6dcc745101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:02 +0000
Subject: [PATCH 23/44] fix: EAS_GetParameter and EAS_SetParameter accepted
 negative module numbers

---
 arm-wt-22k/lib_src/eas_public.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 14a1b21..864d5da 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -2264,7 +2264,7 @@ EAS_PUBLIC EAS_RESULT EAS_Resume (EAS_DATA_HANDLE pEASData, EAS_HANDLE pStream)
 EAS_PUBLIC EAS_RESULT EAS_GetParameter (EAS_DATA_HANDLE pEASData, EAS_I32 module, EAS_I32 param, EAS_I32 *pValue)
 {
 
-    if (module >= NUM_EFFECTS_MODULES)
+    if ((module < 0) || (module >= NUM_EFFECTS_MODULES))
         return EAS_ERROR_INVALID_MODULE;
 
     if (pEASData->effectsModules[module].effectData == NULL)
@@ -2299,7 +2299,7 @@ EAS_PUBLIC EAS_RESULT EAS_GetParameter (EAS_DATA_HANDLE pEASData, EAS_I32 module
 EAS_PUBLIC EAS_RESULT EAS_SetParameter (EAS_DATA_HANDLE pEASData, EAS_I32 module, EAS_I32 param, EAS_I32 value)
 {
 
-    if (module >= NUM_EFFECTS_MODULES)
+    if ((module < 0) || (module >= NUM_EFFECTS_MODULES))
         return EAS_ERROR_INVALID_MODULE;
 
     if (pEASData->effectsModules[module].effectData == NULL)
-- 
2.43.0


From 99931c48ad2b1440b266b784d6e79989a23c2760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:03 +0000
Subject: [PATCH 24/44] fix: stream parameters and readiness of a raw MIDI or
 closed stream went through a null parser pointer

---
 arm-wt-22k/lib_src/eas_public.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 864d5da..2f8200d 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -103,7 +103,7 @@ EAS_RESULT EAS_SetStreamParameter (S_EAS_DATA *pEASData, EAS_HANDLE pStream, EAS
     S_FILE_PARSER_INTERFACE *pParserModule;
 
     pParserModule = (S_FILE_PARSER_INTERFACE*) pStream->pParserModule;
-    if (pParserModule->pfSetData)
+    if ((pParserModule != NULL) && pParserModule->pfSetData)
         return (*pParserModule->pfSetData)(pEASData, pStream->handle, param, value);
     return EAS_ERROR_FEATURE_NOT_AVAILABLE;
 }
@@ -125,7 +125,7 @@ EAS_RESULT EAS_GetStreamParameter (S_EAS_DATA *pEASData, EAS_HANDLE pStream, EAS
     S_FILE_PARSER_INTERFACE *pParserModule;
 
     pParserModule = (S_FILE_PARSER_INTERFACE*) pStream->pParserModule;
-    if (pParserModule->pfGetData)
+    if ((pParserModule != NULL) && pParserModule->pfGetData)
         return (*pParserModule->pfGetData)(pEASData, pStream->handle, param, pValue);
     return EAS_ERROR_FEATURE_NOT_AVAILABLE;
 }
@@ -146,6 +146,8 @@ EAS_BOOL EAS_StreamReady (S_EAS_DATA *pEASData, EAS_HANDLE pStream)
     EAS_STATE state;
 
     pParserModule = (S_FILE_PARSER_INTERFACE*) pStream->pParserModule;
+    if (pParserModule == NULL)
+        return EAS_FALSE;
     if (pParserModule->pfState(pEASData, pStream->handle, &state) != EAS_SUCCESS)
         return EAS_FALSE;
     return (state < EAS_STATE_OPEN);
-- 
2.43.0


From 54376a746c82b2d6bb897a1d1db93fe3f5654b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:04 +0000
Subject: [PATCH 25/44] fix: EAS_WriteMIDIStream and EAS_CloseMIDIStream
 misused file and closed streams as raw MIDI streams

---
 arm-wt-22k/lib_src/eas_public.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 2f8200d..eaa6c40 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -1608,6 +1608,12 @@ EAS_PUBLIC EAS_RESULT EAS_WriteMIDIStream (EAS_DATA_HANDLE pEASData, EAS_HANDLE
     S_INTERACTIVE_MIDI *pMIDIStream;
     EAS_RESULT result;
 
+    /* only an open MIDI stream can be written to */
+    if (pStream->pParserModule != NULL)
+        return EAS_ERROR_FEATURE_NOT_AVAILABLE;
+    if (pStream->handle == NULL)
+        return EAS_ERROR_HANDLE_INTEGRITY;
+
     pMIDIStream = (S_INTERACTIVE_MIDI*) pStream->handle;
 
     if (count <= 0)
@@ -1643,6 +1649,12 @@ EAS_PUBLIC EAS_RESULT EAS_CloseMIDIStream (EAS_DATA_HANDLE pEASData, EAS_HANDLE
 {
     S_INTERACTIVE_MIDI *pMIDIStream;
 
+    /* only an open MIDI stream can be closed here */
+    if (pStream->pParserModule != NULL)
+        return EAS_ERROR_FEATURE_NOT_AVAILABLE;
+    if (pStream->handle == NULL)
+        return EAS_ERROR_HANDLE_INTEGRITY;
+
     pMIDIStream = (S_INTERACTIVE_MIDI*) pStream->handle;
 
     /* close synth */
-- 
2.43.0


From 4637de308d32ff95f48c6925b74427b0b4ef67fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:05 +0000
Subject: [PATCH 26/44] fix: EAS_OpenMIDIStream on a stream without a
 synthesizer used an uninitialised or null synthesizer

---
 arm-wt-22k/lib_src/eas_public.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index eaa6c40..8d2ead9 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -1568,8 +1568,16 @@ EAS_PUBLIC EAS_RESULT EAS_OpenMIDIStream (EAS_DATA_HANDLE pEASData, EAS_HANDLE *
     {
         EAS_I32 value;
         result = EAS_GetStreamParameter(pEASData, streamHandle, PARSER_DATA_SYNTH_HANDLE, &value);
-        pMIDIStream->pSynth = (S_SYNTH*) value;
-        VMIncRefCount(pMIDIStream->pSynth);
+        if (result == EAS_SUCCESS)
+        {
+            pMIDIStream->pSynth = (S_SYNTH*) value;
+
+            /* there is no synthesizer until the stream has been prepared */
+            if (pMIDIStream->pSynth != NULL)
+                VMIncRefCount(pMIDIStream->pSynth);
+            else
+                result = EAS_ERROR_NOT_VALID_IN_THIS_STATE;
+        }
     }
     if (result != EAS_SUCCESS)
     {
-- 
2.43.0


From e2c2825042ec020fc18815396bcc74d114d0bbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:06 +0000
Subject: [PATCH 27/44] fix: EAS_Shutdown leaked open raw MIDI streams

---
 arm-wt-22k/lib_src/eas_public.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 8d2ead9..39bef11 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -492,6 +492,13 @@ EAS_PUBLIC EAS_RESULT EAS_Shutdown (EAS_DATA_HANDLE pEASData)
                 reportResult = result;
             }
         }
+
+        /* a stream without a parser is a raw MIDI stream */
+        else if (pEASData->streams[i].handle)
+        {
+            if ((result = EAS_CloseMIDIStream(pEASData, &pEASData->streams[i])) != EAS_SUCCESS)
+                reportResult = result;
+        }
     }
 
     /* shutdown PCM engine */
-- 
2.43.0


From d213d28b4960291d7c45c80d90ddcacf71273408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:07 +0000
Subject: [PATCH 28/44] fix: a failing EAS_Init leaked everything it had
 already set up

---
 arm-wt-22k/lib_src/eas_public.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 39bef11..6eb757a 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -386,6 +386,7 @@ EAS_PUBLIC EAS_RESULT EAS_Init (EAS_DATA_HANDLE *ppEASData)
     if (!pEASData)
     {
         { /* dpp: EAS_ReportEx(_EAS_SEVERITY_FATAL, "Failed to allocate EAS library memory\n"); */ }
+        EAS_HWShutdown(pHWInstData);
         return EAS_ERROR_MALLOC_FAILED;
     }
 
@@ -411,6 +412,7 @@ EAS_PUBLIC EAS_RESULT EAS_Init (EAS_DATA_HANDLE *ppEASData)
         if ((result = (*pEASData->pMetricsModule->pfInit)(pEASData, &pEASData->pMetricsData)) != EAS_SUCCESS)
         {
             { /* dpp: EAS_ReportEx(_EAS_SEVERITY_ERROR, "Error %ld initializing metrics module\n", result); */ }
+            EAS_Shutdown(pEASData);
             return result;
         }
     }
@@ -418,12 +420,16 @@ EAS_PUBLIC EAS_RESULT EAS_Init (EAS_DATA_HANDLE *ppEASData)
 
     /* initailize the voice manager & synthesizer */
     if ((result = VMInitialize(pEASData)) != EAS_SUCCESS)
+    {
+        EAS_Shutdown(pEASData);
         return result;
+    }
 
     /* initialize mix engine */
     if ((result = EAS_MixEngineInit(pEASData)) != EAS_SUCCESS)
     {
         { /* dpp: EAS_ReportEx(_EAS_SEVERITY_ERROR, "Error %ld starting up mix engine\n", result); */ }
+        EAS_Shutdown(pEASData);
         return result;
     }
 
@@ -436,6 +442,7 @@ EAS_PUBLIC EAS_RESULT EAS_Init (EAS_DATA_HANDLE *ppEASData)
             if ((result = (*pEASData->effectsModules[module].effect->pfInit)(pEASData, &pEASData->effectsModules[module].effectData)) != EAS_SUCCESS)
             {
                 { /* dpp: EAS_ReportEx(_EAS_SEVERITY_FATAL, "Initialization of effects module %d returned %d\n", module, result); */ }
+                EAS_Shutdown(pEASData);
                 return result;
             }
         }
@@ -445,6 +452,7 @@ EAS_PUBLIC EAS_RESULT EAS_Init (EAS_DATA_HANDLE *ppEASData)
     if ((result = EAS_PEInit(pEASData)) != EAS_SUCCESS)
     {
         { /* dpp: EAS_ReportEx(_EAS_SEVERITY_FATAL, "EAS_PEInit failed with error code %ld\n", result); */ }
+        EAS_Shutdown(pEASData);
         return result;
     }
 
-- 
2.43.0


From bdcf71688b7b10a4423578aaa492565a658fee54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:08 +0000
Subject: [PATCH 29/44] fix: loading a DLS collection leaked it and the one it
 replaced, and left voices playing the old one

---
 arm-wt-22k/lib_src/eas_public.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 6eb757a..cd91f72 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -185,11 +185,16 @@ EAS_RESULT EAS_IntSetStrmParam (S_EAS_DATA *pEASData, EAS_HANDLE pStream, EAS_IN
 #ifdef DLS_SYNTHESIZER
         case PARSER_DATA_DLS_COLLECTION:
             {
-                EAS_RESULT result = VMSetDLSLib(pSynth, (EAS_DLSLIB_HANDLE) value);
-                if (result == EAS_SUCCESS)
+                EAS_RESULT result;
+                S_DLS *pOldDLS = pSynth->pDLS;
+
+                if ((result = VMSetDLSLib(pSynth, (EAS_DLSLIB_HANDLE) value)) == EAS_SUCCESS)
                 {
                     DLSAddRef((S_DLS*) value);
-                    VMInitializeAllChannels(pEASData->pVoiceMgr, pSynth);
+
+                    /* no voice may go on playing from the old collection */
+                    VMReset(pEASData->pVoiceMgr, pSynth, EAS_TRUE);
+                    DLSCleanup(pEASData->hwInstData, pOldDLS);
                 }
                 return result;
             }
@@ -2510,8 +2515,13 @@ EAS_PUBLIC EAS_RESULT EAS_LoadDLSCollection (EAS_DATA_HANDLE pEASData, EAS_HANDL
 
         /* if a stream pStream is specified, point it to the DLS collection */
         if (pStream)
+        {
             result = EAS_IntSetStrmParam(pEASData, pStream, PARSER_DATA_DLS_COLLECTION, (EAS_I32) pDLS);
 
+            /* the stream holds its own reference */
+            DLSCleanup(pEASData->hwInstData, pDLS);
+        }
+
         /* global DLS load */
         else
             result = VMSetGlobalDLSLib(pEASData, pDLS);
-- 
2.43.0


From 88b56a95169b9497ce076d18e4d6b2353b326f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:09 +0000
Subject: [PATCH 30/44] fix: pausing and resuming a stream had no effect
 outside JET builds

---
 arm-wt-22k/lib_src/eas_public.c | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index cd91f72..ce7db9f 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -936,32 +936,26 @@ EAS_PUBLIC EAS_RESULT EAS_Render (EAS_DATA_HANDLE pEASData, EAS_PCM *pOut, EAS_I
             /* establish pointer to parser module */
             pParserModule = pEASData->streams[streamNum].pParserModule;
 
-#ifdef JET_INTERFACE
+            /* get current state */
+            if ((result = (*pParserModule->pfState)(pEASData, pEASData->streams[streamNum].handle, &parserState)) != EAS_SUCCESS)
+                return result;
+
             /* handle pause */
             if (pEASData->streams[streamNum].streamFlags & STREAM_FLAGS_PAUSE)
             {
-                if (pParserModule->pfPause)
+                if (((parserState == EAS_STATE_READY) || (parserState == EAS_STATE_PLAY)) && pParserModule->pfPause)
                     result = pParserModule->pfPause(pEASData, pEASData->streams[streamNum].handle);
                 pEASData->streams[streamNum].streamFlags &= ~STREAM_FLAGS_PAUSE;
             }
-#endif
-
-            /* get current state */
-            if ((result = (*pParserModule->pfState)(pEASData, pEASData->streams[streamNum].handle, &parserState)) != EAS_SUCCESS)
-                return result;
 
-#ifdef JET_INTERFACE
             /* handle resume */
-            if (parserState == EAS_STATE_PAUSED)
+            if (pEASData->streams[streamNum].streamFlags & STREAM_FLAGS_RESUME)
             {
-                if (pEASData->streams[streamNum].streamFlags & STREAM_FLAGS_RESUME)
-                {
-                    if (pParserModule->pfResume)
-                        result = pParserModule->pfResume(pEASData, pEASData->streams[streamNum].handle);
+                if ((parserState == EAS_STATE_PAUSED) && pParserModule->pfResume)
+                    result = pParserModule->pfResume(pEASData, pEASData->streams[streamNum].handle);
+                if (parserState != EAS_STATE_PAUSING)
                     pEASData->streams[streamNum].streamFlags &= ~STREAM_FLAGS_RESUME;
-                }
             }
-#endif
 
             /* if necessary, parse stream */
             if ((pEASData->streams[streamNum].streamFlags & STREAM_FLAGS_PARSED) == 0)
@@ -2202,7 +2196,8 @@ EAS_PUBLIC EAS_RESULT EAS_Pause (EAS_DATA_HANDLE pEASData, EAS_HANDLE pStream)
     result = pParserModule->pfState(pEASData, pStream->handle, &state);
     if (result == EAS_SUCCESS)
     {
-        if ((state != EAS_STATE_PLAY) && (state != EAS_STATE_READY) && ((pStream->streamFlags & STREAM_FLAGS_RESUME) == 0))
+        if ((state != EAS_STATE_PLAY) && (state != EAS_STATE_READY) &&
+            (((state != EAS_STATE_PAUSING) && (state != EAS_STATE_PAUSED)) || ((pStream->streamFlags & STREAM_FLAGS_RESUME) == 0)))
             return EAS_ERROR_NOT_VALID_IN_THIS_STATE;
 
         /* make sure parser implements pause */
@@ -2258,7 +2253,8 @@ EAS_PUBLIC EAS_RESULT EAS_Resume (EAS_DATA_HANDLE pEASData, EAS_HANDLE pStream)
     result = pParserModule->pfState(pEASData, pStream->handle, &state);
     if (result == EAS_SUCCESS)
     {
-        if ((state != EAS_STATE_PAUSED) && (state != EAS_STATE_PAUSING) && ((pStream->streamFlags & STREAM_FLAGS_PAUSE) == 0))
+        if ((state != EAS_STATE_PAUSED) && (state != EAS_STATE_PAUSING) &&
+            (((state != EAS_STATE_READY) && (state != EAS_STATE_PLAY)) || ((pStream->streamFlags & STREAM_FLAGS_PAUSE) == 0)))
             return EAS_ERROR_NOT_VALID_IN_THIS_STATE;
 
         /* make sure parser implements this function */
-- 
2.43.0


From cc068b9c0d139f6fc5d6c5384256d9f6296bad3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:11 +0000
Subject: [PATCH 31/44] fix: EAS_SetPriority accepted values that do not fit
 and truncated them

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 5d51e09..f8d1361 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -3507,6 +3507,10 @@ EAS_RESULT VMGetPolyphony (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 *pPo
 /*lint -esym(715, pVoiceMgr) reserved for future use */
 EAS_RESULT VMSetPriority (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 priority)
 {
+    /* check limits */
+    if ((priority < 1) || (priority > 255))
+        return EAS_ERROR_PARAMETER_RANGE;
+
     pSynth->priority = (EAS_U8) priority ;
     return EAS_SUCCESS;
 }
-- 
2.43.0


From ec77a5a670bb8f6e67b551293e0f02b68fad977b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:18 +0000
Subject: [PATCH 32/44] fix: a DLS region gain is a signed 32-bit value

---
 arm-wt-22k/lib_src/eas_mdls.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 1595b60..bd0982c 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -1118,9 +1118,10 @@ static EAS_RESULT Parse_wsmp (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, S_WS
     if ((result = EAS_HWGetWord(pDLSData->hwInstData, pDLSData->fileHandle, &p->fineTune, EAS_FALSE)) != EAS_SUCCESS)
         return result;
 
-    /* get gain */
-    if ((result = EAS_HWGetDWord(pDLSData->hwInstData, pDLSData->fileHandle, &p->gain, EAS_FALSE)) != EAS_SUCCESS)
+    /* get gain, a signed 32-bit value */
+    if ((result = EAS_HWGetDWord(pDLSData->hwInstData, pDLSData->fileHandle, &ltemp, EAS_FALSE)) != EAS_SUCCESS)
         return result;
+    p->gain = (int32_t) ltemp;
     if (p->gain > 0)
     {
         { /* dpp: EAS_ReportEx(_EAS_SEVERITY_WARNING, "Positive gain [%ld] in DLS wsmp ignored, set to 0dB\n", p->gain); */ }
-- 
2.43.0


From 2a0b99aedb57e6e5ef1727ffb890ff1b2f2e6637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:18 +0000
Subject: [PATCH 33/44] fix: close the temporary file handle when a DLS wave
 cannot be parsed

---
 arm-wt-22k/lib_src/eas_mdls.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index bd0982c..5910d61 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -877,7 +877,10 @@ static EAS_RESULT Parse_ptbl (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
 
         /* get the offset to the wave and make sure it is within the wtbl chunk */
         if ((result = EAS_HWGetDWord(pDLSData->hwInstData, tempFile, &temp, EAS_FALSE)) != EAS_SUCCESS)
+        {
+            EAS_HWCloseFile(pDLSData->hwInstData, tempFile);
             return result;
+        }
         if (temp > (EAS_U32) wtblSize)
         {
             { /* dpp: EAS_ReportEx(_EAS_SEVERITY_ERROR, "Ptbl offset exceeds size of wtbl\n"); */ }
@@ -887,7 +890,10 @@ static EAS_RESULT Parse_ptbl (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
 
         /* parse the wave */
         if ((result = Parse_wave(pDLSData, wtblPos +(EAS_I32)  temp, waveIndex)) != EAS_SUCCESS)
+        {
+            EAS_HWCloseFile(pDLSData->hwInstData, tempFile);
             return result;
+        }
     }
 
     /* close the temporary handle and return */
-- 
2.43.0


From 51e2901f8d3f05a50de309ef5e428a130434adf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:18 +0000
Subject: [PATCH 34/44] fix: write the DLS loop guard sample at the end of the
 loop

---
 arm-wt-22k/lib_src/eas_mdls.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 5910d61..5758185 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -1373,19 +1373,15 @@ static EAS_RESULT Parse_data (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
 
     }
 
-    /* for looped samples, copy the last sample to the end */
+    /* for looped samples, copy the first sample of the loop to its end */
     if (pWsmp->loopLength)
     {
-        if( (pDLSData->wavePoolOffset + pWsmp->loopLength) >= pDLSData->wavePoolSize )
-        {
-            return EAS_SUCCESS;
-        }
         if (sampleLen < sizeof(EAS_SAMPLE)
             || (pWsmp->loopStart + pWsmp->loopLength) * sizeof(EAS_SAMPLE) > sampleLen - sizeof(EAS_SAMPLE)) {
             return EAS_FAILURE;
         }
 
-        pSample[(pWsmp->loopStart + pWsmp->loopLength)>>1] = pSample[(pWsmp->loopStart)>>1];
+        pSample[pWsmp->loopStart + pWsmp->loopLength] = pSample[pWsmp->loopStart];
     }
 
     return EAS_SUCCESS;
-- 
2.43.0


From ccf5e782618ad756b57f1153634787e2bc41bced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:18 +0000
Subject: [PATCH 35/44] fix: terminate a DLS region list that is longer than
 announced

---
 arm-wt-22k/lib_src/eas_mdls.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 5758185..66043e6 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -1681,7 +1681,7 @@ static EAS_RESULT Parse_lrgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
             if (regionCount == numRegions)
             {
                 { /* dpp: EAS_ReportEx(_EAS_SEVERITY_WARNING, "DLS region count exceeded cRegions value in insh, extra region ignored\n"); */ }
-                return EAS_SUCCESS;
+                break;
             }
             /* if second pass, ensure regionCount is less than numDLSRegions */
             if (pDLSData->pDLS)
-- 
2.43.0


From e0a45b17d4b162521fe371f2c33a473d23fe8c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:18 +0000
Subject: [PATCH 36/44] fix: skip DLS instruments that have no region left

---
 arm-wt-22k/lib_src/eas_mdls.c | 37 ++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 66043e6..7ce5bcf 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -1429,15 +1429,6 @@ static EAS_RESULT Parse_lins (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
         if (temp != CHUNK_INS)
             continue;
 
-        /* if second pass, ensure instCount is less than numDLSPrograms */
-        if (pDLSData->pDLS)
-        {
-            if (pDLSData->instCount >= pDLSData->pDLS->numDLSPrograms)
-            {
-                return EAS_ERROR_DATA_INCONSISTENCY;
-            }
-        }
-
         if ((result = Parse_ins(pDLSData, chunkPos + 12, size)) != EAS_SUCCESS)
             return result;
     }
@@ -1477,6 +1468,7 @@ static EAS_RESULT Parse_ins (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_I
     S_DLS_ART_VALUES art;
     S_PROGRAM *pProgram;
     EAS_U16 artIndex;
+    EAS_U32 firstRegion;
 
     /* seek to start of chunk */
     if ((result = EAS_HWFileSeek(pDLSData->hwInstData, pDLSData->fileHandle, pos)) != EAS_SUCCESS)
@@ -1561,20 +1553,32 @@ static EAS_RESULT Parse_ins (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_I
 
         if (art.values[PARAM_MODIFIED])
             Convert_art(pDLSData, &art, artIndex);
+    }
+
+    /* parse the region data */
+    firstRegion = pDLSData->regionCount;
+    if ((result = Parse_lrgn(pDLSData, lrgnPos, lrgnSize, artIndex, regionCount)) != EAS_SUCCESS)
+        return result;
+
+    /* an instrument without regions cannot be played */
+    if (pDLSData->regionCount == firstRegion)
+        return EAS_SUCCESS;
+
+    /* convert data on second pass */
+    if (pDLSData->pDLS)
+    {
+        /* ensure instCount is less than numDLSPrograms */
+        if (pDLSData->instCount >= pDLSData->pDLS->numDLSPrograms)
+            return EAS_ERROR_DATA_INCONSISTENCY;
 
         /* setup pointers */
         pProgram = &pDLSData->pDLS->pDLSPrograms[pDLSData->instCount];
 
         /* initialize instrument */
         pProgram->locale = locale;
-        pProgram->regionIndex = (EAS_U16) pDLSData->regionCount | FLAG_RGN_IDX_DLS_SYNTH;
-
+        pProgram->regionIndex = (EAS_U16) firstRegion | FLAG_RGN_IDX_DLS_SYNTH;
     }
 
-    /* parse the region data */
-    if ((result = Parse_lrgn(pDLSData, lrgnPos, lrgnSize, artIndex, regionCount)) != EAS_SUCCESS)
-        return result;
-
     /* bump instrument count */
     pDLSData->instCount++;
     return EAS_SUCCESS;
@@ -1660,6 +1664,7 @@ static EAS_RESULT Parse_lrgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
     EAS_I32 chunkPos;
     EAS_I32 endChunk;
     EAS_U16 regionCount;
+    EAS_U32 firstRegion = pDLSData->regionCount;
 
     /* seek to start of chunk */
     if ((result = EAS_HWFileSeek(pDLSData->hwInstData, pDLSData->fileHandle, pos)) != EAS_SUCCESS)
@@ -1698,7 +1703,7 @@ static EAS_RESULT Parse_lrgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
     }
 
     /* set a flag in the last region */
-    if ((pDLSData->pDLS != NULL) && (regionCount > 0))
+    if ((pDLSData->pDLS != NULL) && (pDLSData->regionCount > firstRegion))
         pDLSData->pDLS->pDLSRegions[pDLSData->regionCount - 1].wtRegion.region.keyGroupAndFlags |= REGION_FLAG_LAST_REGION;
 
     return EAS_SUCCESS;
-- 
2.43.0


From bb7ee888ffa26d644e01d3924d2e46aaffde8903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:18 +0000
Subject: [PATCH 37/44] fix: refuse a DLS sample rate of zero

---
 arm-wt-22k/lib_src/eas_mdls.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 7ce5bcf..7f1a719 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -1226,6 +1226,11 @@ static EAS_RESULT Parse_fmt (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, S_WSM
     /* get sample rate */
     if ((result = EAS_HWGetDWord(pDLSData->hwInstData, pDLSData->fileHandle, &p->sampleRate, EAS_FALSE)) != EAS_SUCCESS)
         return result;
+    if (p->sampleRate == 0)
+    {
+        { /* dpp: EAS_ReportEx(_EAS_SEVERITY_ERROR, "DLS sample rate is zero\n"); */ }
+        return EAS_ERROR_UNRECOGNIZED_FORMAT;
+    }
 
     /* bytes/sec */
     if ((result = EAS_HWGetDWord(pDLSData->hwInstData, pDLSData->fileHandle, &ltemp, EAS_FALSE)) != EAS_SUCCESS)
-- 
2.43.0


From aacf2bf3c10c3899b7e7f3f5f03d11fc76eef463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:18 +0000
Subject: [PATCH 38/44] fix: keep DLS key groups out of the region flags

---
 arm-wt-22k/lib_src/eas_mdls.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 7f1a719..37b7add 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -1971,8 +1971,8 @@ static EAS_RESULT Parse_rgnh (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, S_DL
     pRgn->wtRegion.region.rangeLow = (EAS_U8) lowKey;
     pRgn->wtRegion.region.rangeHigh = (EAS_U8) highKey;
 
-    /*lint -e{734} keyGroup will always be from 0-15 */
-    pRgn->wtRegion.region.keyGroupAndFlags = keyGroup << 8;
+    /* only key groups 0-15 exist, the other bits are flags */
+    pRgn->wtRegion.region.keyGroupAndFlags = (EAS_U16) ((keyGroup & 0x0f) << 8);
     pRgn->velLow = (EAS_U8) lowVel;
     pRgn->velHigh = (EAS_U8) highVel;
     if (optionFlags & F_RGN_OPTION_SELFNONEXCLUSIVE)
-- 
2.43.0


From 32ff2071e2c70449b1a3b238b972b0473e9df269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:18 +0000
Subject: [PATCH 39/44] fix: a negative DLS sustain level is zero

---
 arm-wt-22k/lib_src/eas_mdls.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 37b7add..ab9e367 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -2601,8 +2601,8 @@ static EAS_I16 ConvertSampleRate (EAS_U32 sampleRate)
 */
 static EAS_I16 ConvertSustain (EAS_I32 sustain)
 {
-    /* check for sustain level of zero */
-    if (sustain == 0)
+    /* check for sustain level of zero, a negative level is invalid */
+    if (sustain <= 0)
         return 0;
 
     /* convert to log2 factor */
-- 
2.43.0


From 874ac4ddae306a41f188b2478ccb387b2392161c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:19 +0000
Subject: [PATCH 40/44] fix: do not read beyond the end of DLS lists

---
 arm-wt-22k/lib_src/eas_mdls.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index ab9e367..18082f0 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -948,7 +948,7 @@ static EAS_RESULT Parse_wave (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
 
     /* read to end of chunk */
     pos = chunkPos;
-    endChunk = pos + size;
+    endChunk = pos + size - 4;
     while (pos < endChunk)
     {
         chunkPos = pos;
@@ -1434,7 +1434,7 @@ static EAS_RESULT Parse_lins (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
         if (temp != CHUNK_INS)
             continue;
 
-        if ((result = Parse_ins(pDLSData, chunkPos + 12, size)) != EAS_SUCCESS)
+        if ((result = Parse_ins(pDLSData, chunkPos + 12, size - 4)) != EAS_SUCCESS)
             return result;
     }
 
@@ -1501,17 +1501,17 @@ static EAS_RESULT Parse_ins (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_I
 
             case CHUNK_LART:
                 lartPos = chunkPos + 12;
-                lartSize = size;
+                lartSize = size - 4;
                 break;
 
             case CHUNK_LAR2:
                 lar2Pos = chunkPos + 12;
-                lar2Size = size;
+                lar2Size = size - 4;
                 break;
 
             case CHUNK_LRGN:
                 lrgnPos = chunkPos + 12;
-                lrgnSize = size;
+                lrgnSize = size - 4;
                 break;
 
             default:
@@ -1701,7 +1701,7 @@ static EAS_RESULT Parse_lrgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
                     return EAS_ERROR_DATA_INCONSISTENCY;
                 }
             }
-            if ((result = Parse_rgn(pDLSData, chunkPos + 12, size, artIndex)) != EAS_SUCCESS)
+            if ((result = Parse_rgn(pDLSData, chunkPos + 12, size - 4, artIndex)) != EAS_SUCCESS)
                 return result;
             regionCount++;
         }
@@ -1791,12 +1791,12 @@ static EAS_RESULT Parse_rgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_I
 
             case CHUNK_LART:
                 lartPos = chunkPos + 12;
-                lartSize = size;
+                lartSize = size - 4;
                 break;
 
             case CHUNK_LAR2:
                 lar2Pos = chunkPos + 12;
-                lar2Size = size;
+                lar2Size = size - 4;
                 break;
 
             default:
-- 
2.43.0


From 9f58922dc78ec67de7639073c9c6dccbbedb0482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:19 +0000
Subject: [PATCH 41/44] fix: ignore an incomplete sample at the end of DLS wave
 data

---
 arm-wt-22k/lib_src/eas_mdls.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 18082f0..13b9dae 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -1048,7 +1048,11 @@ static EAS_RESULT Parse_wave (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
     else
     {
         if (p->bitsPerSample == 16)
+        {
+            /* ignore an incomplete sample at the end */
+            dataSize &= ~1;
             size = dataSize;
+        }
         else
             /*lint -e{703} use shift for performance */
             size = dataSize << 1;
-- 
2.43.0


From f4f5d110a19f8cb033d40347e7eb88ede27b4085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:19 +0000
Subject: [PATCH 42/44] fix: consume the DLS condition chunk while evaluating
 it

---
 arm-wt-22k/lib_src/eas_mdls.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 13b9dae..8c816e7 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -2349,11 +2349,12 @@ static EAS_RESULT Parse_cdl (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 size, EAS_
     stackPtr = -1;
     *pValue = 0;
     x = 0;
-    while (size)
+    while (size > 0)
     {
         /* read the opcode */
         if ((result = EAS_HWGetWord(pDLSData->hwInstData, pDLSData->fileHandle, &opcode, EAS_FALSE)) != EAS_SUCCESS)
             return result;
+        size -= 2;
 
         /* handle binary opcodes */
         if (opcode <= DLS_CDL_EQ)
@@ -2425,12 +2426,14 @@ static EAS_RESULT Parse_cdl (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 size, EAS_
         {
             if ((result = EAS_HWGetDWord(pDLSData->hwInstData, pDLSData->fileHandle, &x, EAS_FALSE)) != EAS_SUCCESS)
                 return result;
+            size -= 4;
         }
 
         else if (opcode == DLS_CDL_QUERY)
         {
             if ((result = ReadDLSID(pDLSData, &dlsid)) != EAS_SUCCESS)
                 return result;
+            size -= 16;
             QueryGUID(&dlsid, &x);
         }
 
@@ -2438,6 +2441,7 @@ static EAS_RESULT Parse_cdl (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 size, EAS_
         {
             if ((result = ReadDLSID(pDLSData, &dlsid)) != EAS_SUCCESS)
                 return result;
+            size -= 16;
             x = QueryGUID(&dlsid, &y);
         }
         else
-- 
2.43.0


From cc3f3a7db0fc13878ad8e102bc63a916b6a33810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:19 +0000
Subject: [PATCH 43/44] fix: compare DLS identifiers without uninitialised
 padding

---
 arm-wt-22k/lib_src/eas_mdls.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 8c816e7..211fc01 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -2314,6 +2314,8 @@ static EAS_RESULT ReadDLSID (SDLS_SYNTHESIZER_DATA *pDLSData, DLSID *pDLSID)
     EAS_RESULT result;
     EAS_I32 n;
 
+    /* the padding is compared too */
+    EAS_HWMemSet(pDLSID, 0, sizeof(DLSID));
     if ((result = EAS_HWGetDWord(pDLSData->hwInstData, pDLSData->fileHandle, &pDLSID->Data1, EAS_FALSE)) != EAS_SUCCESS)
         return result;
     if ((result = EAS_HWGetWord(pDLSData->hwInstData, pDLSData->fileHandle, &pDLSID->Data2, EAS_FALSE)) != EAS_SUCCESS)
-- 
2.43.0


From 6d12f22f4e52680fd1ef14c1491db83af4426d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:19 +0000
Subject: [PATCH 44/44] fix: evaluate DLS conditions in 32 bits

---
 arm-wt-22k/lib_src/eas_mdls.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 211fc01..720638d 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -2449,7 +2449,8 @@ static EAS_RESULT Parse_cdl (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 size, EAS_
         else
             { /* dpp: EAS_ReportEx(_EAS_SEVERITY_WARNING, "Unsupported opcode %d in DLS file\n", opcode); */ }
 
-        /* push the result on the stack */
+        /* push the 32-bit result on the stack */
+        x = (uint32_t) x;
         if ((result = PushcdlStack(stack, &stackPtr, x)) != EAS_SUCCESS)
             return result;
     }
-- 
2.43.0

