/* generated by tools/hugekat.c */
#define HUGE_N 4294967373ull
#define HUGE_ED 2147483748ull
static const unsigned char huge_dil[2420] = {127,250,60,86,225,190,83,224,126,35,243,40,244,76,194,37,122,112,69,193,191,219,119,61,151,69,103,242,231,18,207,149,245,75,193,135,69,59,176,199,208,113,49,32,213,58,34,200,218,234,199,165,174,57,47,34,49,118,19,143,228,3,121,222,212,194,37,229,8,151,185,189,223,118,57,133,100,61,146,53,181,189,240,127,137,203,80,202,148,156,62,64,9,163,179,104,255,15,66,34,28,188,15,221,210,78,122,213,112,107,81,189,5,120,247,65,182,30,102,164,64,194,88,32,217,86,104,215,147,108,117,188,11,119,231,235,89,63,212,112,41,81,203,55,55,134,211,184,73,8,95,155,181,167,157,186,187,250,61,74,124,12,184,84,3,0,170,109,101,51,237,92,72,160,113,13,87,27,140,93,212,64,81,94,228,77,211,5,205,222,180,192,165,36,33,104,73,209,14,228,194,250,6,53,24,200,209,43,97,100,172,16,28,82,42,49,66,34,7,178,238,107,100,150,140,171,207,93,134,11,230,112,112,15,137,225,0,83,119,210,219,190,187,111,9,247,85,135,85,207,135,39,89,201,227,4,250,89,169,221,223,47,176,145,211,164,147,232,87,251,94,29,79,135,160,66,66,70,169,131,252,209,226,184,120,141,24,11,157,91,123,62,10,170,204,166,245,213,7,37,2,132,97,27,247,156,85,191,207,186,111,77,57,92,48,234,182,32,141,217,233,102,23,38,232,52,162,190,242,115,86,55,21,58,81,176,5,217,3,226,199,129,105,37,13,39,2,27,127,163,65,112,222,227,216,108,95,135,234,126,21,251,11,5,155,154,45,67,180,208,183,93,64,191,22,92,248,255,153,81,65,94,202,252,233,135,148,118,160,97,45,173,26,100,144,35,237,56,31,227,222,50,208,143,155,125,21,74,35,84,221,109,214,60,77,185,254,17,3,188,124,188,43,86,173,7,133,178,63,216,250,237,167,163,179,118,105,92,16,42,144,77,83,191,180,174,133,121,92,149,188,251,137,246,88,151,50,105,94,194,9,54,250,89,81,142,240,81,103,152,25,225,228,190,66,97,35,110,121,51,171,212,52,21,244,197,130,87,94,184,239,232,248,23,153,66,249,156,207,211,240,65,105,250,4,250,4,98,208,110,163,9,110,19,141,153,246,209,33,54,62,20,231,158,51,134,147,59,150,98,71,234,132,30,70,230,168,46,90,248,21,87,136,106,233,3,219,125,180,170,83,189,105,172,250,76,218,246,58,245,96,81,178,98,151,92,164,17,95,242,71,96,115,79,189,245,170,248,187,154,253,121,97,227,123,93,78,11,147,24,103,76,193,236,221,179,175,234,153,73,2,33,104,31,143,236,40,89,78,167,36,43,71,153,21,43,131,116,169,224,211,94,123,52,162,14,233,29,78,187,121,235,6,92,105,76,158,32,118,99,118,117,33,65,240,134,245,69,19,85,208,254,7,57,239,184,250,98,38,184,225,187,208,31,199,38,118,195,183,94,176,234,222,71,245,159,216,215,202,142,176,74,26,193,141,189,169,167,214,208,208,2,194,246,97,163,83,176,72,187,151,218,2,163,220,84,92,186,3,44,113,251,163,127,131,252,115,135,84,112,64,176,123,134,64,210,76,2,85,52,180,108,121,88,14,81,239,237,156,148,185,187,34,239,96,149,28,93,111,219,229,163,191,108,46,130,156,161,27,114,236,72,179,225,164,178,231,107,191,53,114,232,222,135,224,249,7,71,150,138,254,170,42,113,77,64,232,254,49,70,100,127,91,112,50,6,133,77,113,70,70,38,171,138,140,173,94,195,99,147,71,105,237,190,75,98,87,102,234,61,73,7,5,172,125,95,11,39,214,39,184,55,210,201,66,121,243,112,246,145,29,199,67,53,248,186,8,248,58,19,178,149,56,83,73,37,80,26,88,73,220,138,78,251,70,22,146,22,19,90,89,244,243,20,81,126,180,235,15,89,193,76,175,216,241,64,214,111,112,212,189,70,238,225,253,142,209,155,16,246,48,22,202,13,16,201,198,218,26,123,160,82,151,193,9,146,143,11,135,163,196,2,91,204,238,214,38,124,44,114,223,120,112,238,151,23,26,26,234,34,247,231,249,25,174,46,139,56,165,3,108,88,234,105,74,123,180,186,17,9,69,92,134,203,56,88,16,231,15,121,199,23,40,164,172,109,255,17,208,221,141,242,92,130,93,221,220,140,96,159,133,62,52,193,119,221,168,180,49,96,192,190,167,27,62,4,56,68,209,228,82,30,25,235,102,193,12,212,68,227,9,4,251,7,4,241,129,208,48,36,68,239,40,228,32,132,232,64,167,39,53,251,125,165,170,245,14,211,185,33,5,235,201,227,112,9,154,253,133,249,44,114,72,16,64,22,225,214,74,13,238,182,71,37,202,15,252,100,165,250,64,99,167,51,96,88,56,189,193,36,207,36,178,153,42,61,146,118,154,38,106,209,109,123,165,46,7,56,187,109,229,67,75,92,175,180,213,217,208,50,151,157,229,193,111,197,113,133,134,227,78,43,127,181,30,225,137,11,49,217,179,32,237,18,41,101,33,0,160,23,168,5,168,7,177,88,8,137,209,114,30,50,170,15,22,199,9,39,174,70,165,14,204,73,43,138,113,208,224,116,100,210,96,94,146,210,251,131,195,193,101,110,203,51,91,82,245,121,18,219,32,197,225,141,214,207,87,106,83,153,254,46,90,135,250,219,27,130,44,130,9,189,147,208,134,248,193,11,250,47,1,115,246,245,170,94,127,228,140,183,199,1,6,220,20,72,49,246,32,136,195,32,175,105,126,246,238,24,95,103,175,27,249,107,56,120,51,97,89,17,211,140,97,27,214,154,209,25,89,138,112,106,47,28,159,51,50,93,149,21,17,175,82,170,41,66,129,105,20,113,107,134,214,128,1,202,255,182,128,20,129,152,52,239,123,73,151,151,54,128,7,45,23,0,168,98,241,80,120,208,92,22,11,122,163,89,82,53,225,72,59,134,223,96,27,22,238,28,51,56,141,7,35,70,115,68,207,207,163,158,58,186,82,222,76,19,205,214,63,237,81,189,114,232,153,171,218,103,243,51,102,75,210,64,217,22,59,154,132,55,89,236,163,157,136,85,240,227,159,160,61,59,131,231,16,125,182,241,57,236,108,18,226,163,127,191,248,173,3,150,42,123,75,114,38,82,187,12,110,9,119,153,4,7,95,40,234,217,10,104,76,242,180,166,171,210,74,98,176,84,206,106,241,231,83,240,120,197,32,73,150,158,159,109,129,187,145,37,244,220,163,122,181,143,125,134,93,175,153,191,16,232,109,115,171,220,234,54,99,13,36,205,57,82,85,148,194,172,17,245,233,53,155,72,77,77,89,200,246,72,142,130,191,138,162,255,199,208,97,239,185,188,112,151,135,28,48,148,213,137,207,24,255,70,6,154,237,147,21,142,2,51,130,48,69,29,7,107,95,248,166,124,68,140,197,3,163,207,226,69,68,200,184,76,45,112,248,3,29,153,171,182,80,225,58,217,1,162,41,80,67,72,86,135,118,169,197,218,37,15,109,108,171,49,166,172,49,192,118,165,136,176,133,195,72,189,75,50,56,79,167,190,198,126,192,158,89,255,163,43,152,20,93,8,236,66,137,171,94,208,3,172,227,19,62,23,128,58,153,1,211,239,91,110,87,0,244,190,150,217,102,134,41,188,252,164,3,252,112,220,64,187,63,48,39,189,1,255,110,207,121,87,184,198,182,159,164,162,103,86,119,115,150,114,102,4,84,78,128,123,241,86,40,105,16,170,123,56,91,149,97,227,36,66,175,215,155,52,139,156,57,41,147,49,181,70,171,167,118,234,156,224,180,91,104,1,231,242,132,105,236,252,188,99,95,105,155,47,124,225,151,89,186,99,100,245,5,170,137,213,74,15,156,117,32,192,58,252,173,79,16,54,98,18,198,151,18,88,240,223,206,51,194,254,206,204,93,205,100,2,140,168,133,244,207,181,32,161,191,56,81,56,98,85,53,221,216,163,28,128,85,67,98,79,50,234,240,206,63,255,18,254,99,171,71,224,186,212,63,217,120,247,126,243,224,242,90,25,143,104,72,127,164,207,227,164,138,142,151,22,166,1,101,215,10,142,218,121,229,198,186,194,199,133,189,115,33,229,223,38,25,231,230,234,18,194,116,171,19,111,128,149,126,170,240,141,236,24,128,97,25,135,131,247,9,127,176,0,4,234,47,10,109,17,86,32,157,5,215,78,147,172,111,243,195,16,14,1,195,74,247,211,154,225,39,87,182,80,197,253,232,130,226,254,63,130,111,156,187,160,254,63,243,3,71,184,44,230,164,180,13,72,93,99,246,118,116,190,75,227,125,250,155,110,183,213,137,118,177,211,7,113,169,94,21,33,225,208,190,26,250,227,125,190,163,51,47,129,220,177,118,102,60,49,175,182,51,61,46,7,234,82,187,189,94,154,197,79,129,153,202,11,243,9,117,107,249,119,192,150,21,119,53,104,155,200,178,132,157,148,58,181,174,63,23,171,201,213,255,53,91,133,154,136,131,202,149,32,184,208,37,108,114,168,47,111,13,156,111,246,145,141,110,243,128,24,41,10,21,140,99,207,227,60,14,158,71,15,121,215,18,203,219,214,65,126,4,54,147,6,105,22,108,47,204,107,161,63,26,183,219,69,97,235,92,215,134,242,73,139,181,244,202,112,122,191,245,99,225,55,81,68,21,240,31,93,56,187,48,203,5,164,189,36,249,70,164,252,126,26,128,109,226,251,105,217,231,23,123,35,13,27,54,213,102,79,234,191,217,147,68,105,56,6,253,122,49,209,150,164,70,148,139,45,123,131,176,162,108,240,49,53,158,87,159,40,200,145,14,29,25,234,243,201,67,187,165,246,138,211,228,111,100,121,93,185,219,212,87,102,141,192,237,96,8,55,98,38,62,31,201,249,93,133,121,156,194,0,60,200,225,233,94,207,169,179,4,85,53,24,229,37,252,6,54,2,62,84,2,55,35,172,192,178,41,138,181,71,6,159,223,233,91,25,116,239,92,54,144,147,108,41,124,239,180,221,34,134,220,176,240,196,162,81,213,43,82,169,188,185,205,134,78,222,9,140,2,16,135,142,230,78,209,138,16,168,67,45,129,30,204,60,59,115,191,224,92,127,165,158,125,55,254,125,236,93,252,226,118,92,89,230,219,151,10,40,249,51,98,220,1,244,187,168,174,228,18,21,34,58,64,74,92,117,123,160,167,193,229,237,0,25,81,107,133,137,140,149,161,165,198,200,7,9,22,92,98,104,105,106,119,131,137,162,169,179,210,0,3,10,12,34,50,60,63,74,89,117,121,137,145,177,221,228,237,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,14,26,41,59,};
static const unsigned char huge_spx_head[64] = {161,227,7,93,73,177,171,44,6,221,16,13,0,192,3,139,128,145,170,115,95,235,133,167,238,252,177,128,176,99,248,148,95,120,239,162,14,189,53,121,159,136,92,7,120,124,218,15,198,219,39,234,65,248,205,137,171,81,13,191,176,77,160,47,};
static const unsigned char huge_spx_shake[32] = {57,67,195,137,76,40,130,167,139,36,30,26,166,98,199,181,198,29,157,19,226,78,157,203,189,219,105,120,53,144,224,132,};
static const unsigned char huge_ed[64] = {187,182,237,247,108,234,40,188,99,56,2,16,104,152,159,69,134,35,202,43,61,174,54,49,129,70,82,20,188,231,251,149,90,107,158,200,255,247,117,243,67,59,240,137,174,120,110,223,145,227,68,38,214,215,207,134,96,128,199,50,137,25,218,3,};
