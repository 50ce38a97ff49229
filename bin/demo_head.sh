#!/bin/bash
# builds demo.c against the library sources of the repository in the current directory
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
L=arm-wt-22k/lib_src; H=arm-wt-22k/host_src
sed 's/@PROJECT_VERSION_[A-Z]*@/1/g' $H/eas.cmake > $t/eas.h
F="-w -g -O1 -fPIC -DDLS_SYNTHESIZER -DEAS_WT_SYNTH -DMAX_SYNTH_VOICES=64 -DNUM_OUTPUT_CHANNELS=2 -DUNIFIED_DEBUG_MESSAGES -D_16_BIT_SAMPLES -D_CHORUS_ENABLED -D_FILTER_ENABLED -D_REVERB_ENABLED -D_SAMPLE_RATE_44100 -I$t -I$H -I$L -Ifakes"
S="$H/eas_config.c $H/eas_hostmm.c $H/eas_report.c"
for s in chorus chorusdata data dlssynth flog math mdls midi mididata mixbuf mixer pan pcm pcmdata public reverb reverbdata smf smfdata tcdata tonecontrol voicemgt wtengine wtsynth; do S="$S $L/eas_$s.c"; done
S="$S $L/wt_200k_G.c"
gcc $F $EXTRA "$here/demo.c" $S -o "$t/demo" -lm || exit 3
timeout 120 "$t/demo"
