struct SV {}; struct AV {}; inline AV* newAV() { return new AV; } inline SV* newRV_inc(SV*) { return new SV; }
