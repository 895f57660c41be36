/* made by tools/mkxsmall.py */
static const struct { unsigned char k[32], p[32], u[32]; } X_SMALL[] = {
{{88,119,24,144,36,58,221,110,139,76,225,140,141,177,135,134,210,122,171,125,34,12,212,30,23,87,160,155,223,115,243,95},{146,181,231,211,215,144,118,117,43,169,77,112,113,111,198,24,44,125,169,173,7,111,91,95,22,255,173,160,96,216,125,45},{2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{176,246,83,146,153,77,103,203,25,85,236,59,124,222,56,45,189,19,165,189,77,158,179,87,92,172,240,32,212,85,126,93},{213,247,234,191,229,190,104,82,51,208,8,128,69,218,14,144,247,209,137,93,2,57,44,187,232,2,235,77,165,99,2,49},{2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{80,246,38,72,8,44,8,6,126,152,164,232,242,153,63,169,54,160,86,151,207,50,197,226,158,22,213,166,226,184,109,120},{226,31,42,3,216,243,250,6,209,100,11,128,36,205,80,67,130,242,11,101,170,68,49,37,89,91,105,145,170,52,68,72},{2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{104,96,129,234,97,139,29,181,166,11,208,152,235,100,83,127,109,79,87,222,247,132,0,11,236,169,213,77,243,50,88,68},{53,142,226,174,161,137,187,36,29,198,192,69,134,250,90,160,183,66,117,37,21,116,122,237,67,228,7,231,184,117,115,49},{2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{176,234,204,141,83,32,48,55,121,46,17,44,172,129,126,24,252,144,18,58,107,192,76,45,212,58,174,9,209,47,102,117},{87,8,205,123,27,104,113,136,95,101,104,154,127,29,190,24,121,150,116,255,238,180,64,166,60,193,59,164,70,133,9,122},{2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{232,51,113,38,232,163,133,66,2,61,211,224,126,196,76,55,167,24,176,161,42,198,154,78,87,243,28,128,118,176,117,96},{109,8,232,118,123,197,88,120,141,189,15,222,97,121,152,125,46,202,175,57,241,147,98,141,96,134,38,228,106,28,73,27},{2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{184,171,199,125,88,88,186,29,199,241,104,75,168,67,211,180,155,24,213,34,17,62,240,77,175,30,82,125,168,21,197,123},{6,97,199,132,238,93,192,230,5,154,35,64,134,72,207,133,64,109,249,153,109,85,31,153,237,124,164,141,254,232,63,94},{2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{16,19,198,113,191,50,156,24,65,51,163,216,216,114,53,156,16,12,122,131,2,217,129,159,85,94,67,234,51,199,96,112},{168,201,67,253,77,45,16,62,38,92,136,216,81,105,109,64,253,191,6,181,149,185,53,27,43,152,136,250,205,43,109,68},{2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{208,92,250,203,219,201,226,173,193,220,95,119,129,84,82,247,55,44,89,116,206,129,62,53,141,166,252,86,245,169,203,76},{6,82,154,199,23,178,172,253,226,31,129,200,254,73,133,191,20,43,151,4,231,246,2,86,226,3,234,134,217,199,153,61},{2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{72,145,252,81,148,30,161,173,52,214,155,169,198,186,199,165,187,64,186,129,149,43,206,114,64,229,139,115,226,174,240,67},{132,45,120,251,201,223,35,250,54,16,179,59,19,98,46,167,16,95,67,73,112,224,130,187,174,208,109,84,164,220,250,75},{2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{208,7,174,180,135,86,223,61,167,126,132,187,76,108,160,187,16,229,37,246,93,88,43,62,214,213,36,121,162,132,0,78},{50,196,161,198,30,250,199,181,156,14,20,198,114,186,205,43,142,191,135,21,184,36,43,230,161,125,150,193,69,147,63,28},{9,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{144,70,31,96,255,123,193,251,18,82,230,200,90,192,191,98,229,222,5,123,37,243,49,127,14,207,192,194,4,6,179,121},{253,42,71,133,1,128,119,216,163,232,0,207,21,101,20,249,186,4,93,230,44,114,90,209,11,254,11,64,130,107,108,91},{9,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{128,251,239,96,145,109,181,206,121,190,157,11,108,191,192,87,208,222,200,87,63,216,0,215,134,183,131,252,112,145,78,65},{214,212,239,30,189,165,190,37,231,135,11,89,51,87,86,82,169,253,245,128,246,69,102,36,21,75,193,135,112,114,172,85},{9,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{48,4,118,118,255,180,243,48,13,217,116,182,120,39,102,254,102,194,36,19,34,234,138,16,183,156,78,88,73,55,148,67},{240,109,84,123,223,248,109,105,142,102,172,116,17,80,114,34,208,208,251,142,51,146,41,217,199,68,9,115,141,222,170,64},{9,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{192,190,37,52,252,167,175,123,83,109,229,231,12,235,111,99,123,232,224,186,156,3,75,200,145,167,69,233,255,84,103,68},{41,67,2,53,5,9,53,99,197,82,187,91,68,66,178,159,126,201,188,232,129,161,85,176,32,191,90,91,41,13,180,45},{9,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{0,108,49,55,108,198,86,208,206,121,87,177,107,228,160,218,8,66,32,161,221,22,36,196,62,86,6,214,194,1,68,85},{85,125,81,15,206,180,93,90,103,115,248,232,31,206,136,241,123,7,241,173,211,14,100,170,123,70,229,207,78,247,154,17},{9,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{112,49,170,222,236,116,192,134,104,202,225,254,59,254,50,64,71,93,55,60,118,80,116,12,171,59,135,190,24,68,142,94},{149,213,244,64,4,0,147,155,181,119,91,240,137,2,235,168,208,216,86,144,41,81,10,88,62,131,244,63,58,226,77,97},{9,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{184,240,221,246,213,15,22,174,198,208,127,141,174,243,65,55,44,65,226,97,136,247,26,141,0,29,222,241,5,156,161,77},{44,119,125,8,9,107,245,218,65,8,18,192,115,43,163,101,9,146,41,149,42,217,47,156,46,171,245,88,122,65,222,94},{9,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{240,32,220,207,21,46,201,158,161,202,54,45,12,230,240,214,197,223,190,43,213,137,250,120,181,102,132,65,136,146,48,122},{133,186,176,211,94,241,119,230,191,90,128,255,53,187,250,204,48,130,240,212,33,190,150,100,247,222,168,110,62,4,134,107},{9,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{216,100,244,123,235,204,39,58,140,139,197,64,134,215,48,245,201,107,71,156,226,252,210,94,132,150,204,48,9,130,37,120},{250,148,158,27,158,40,218,129,27,231,64,235,184,167,44,49,15,117,129,49,208,44,80,118,78,74,187,132,142,216,236,28},{9,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{208,248,25,212,200,226,23,19,222,41,168,210,185,182,191,54,141,6,213,247,112,5,228,149,119,251,24,3,57,102,20,87},{163,224,217,190,164,163,5,237,110,253,150,129,170,59,47,157,119,173,180,149,221,8,90,141,85,172,195,30,36,149,25,98},{16,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{72,155,20,176,18,173,29,19,5,216,233,126,74,228,145,223,168,196,14,255,112,170,52,177,86,142,68,96,12,219,141,101},{193,102,115,81,73,144,87,1,214,40,30,31,39,159,112,252,14,85,125,64,220,191,52,34,164,167,161,237,147,107,94,72},{16,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{168,164,177,197,14,35,67,124,129,250,121,175,159,76,52,200,191,67,59,112,254,17,199,4,194,97,90,72,254,13,38,80},{75,82,13,68,196,121,160,103,117,87,52,148,236,94,16,79,3,10,19,202,214,22,92,1,232,188,230,178,119,85,165,65},{16,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{88,43,193,67,140,112,139,201,154,232,146,184,222,131,63,151,79,51,147,78,193,66,94,253,84,187,209,3,218,34,55,113},{247,74,193,8,20,223,203,255,190,32,69,29,184,45,5,165,91,35,219,229,140,81,247,100,202,179,50,203,134,42,6,1},{16,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{40,18,75,139,175,250,36,9,236,41,51,84,142,134,202,187,195,47,139,24,59,181,30,155,199,144,232,106,94,158,232,73},{161,17,77,211,133,172,216,71,136,221,81,235,104,209,244,41,107,161,252,152,114,233,44,108,240,250,132,227,142,129,38,125},{16,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{120,30,141,183,142,43,188,41,23,209,12,57,104,84,160,87,9,54,168,196,168,0,114,36,209,212,202,191,103,109,144,80},{134,144,236,69,152,227,107,22,95,208,119,74,63,6,124,5,218,130,10,86,232,173,153,94,226,92,7,62,196,237,24,4},{16,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{16,171,235,47,16,58,184,105,43,65,82,135,49,9,83,144,73,42,141,100,199,149,44,120,4,218,50,136,176,202,67,78},{40,70,240,105,220,188,103,200,215,90,145,3,238,87,18,222,234,253,24,38,227,218,70,140,68,204,0,87,245,11,65,122},{16,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{232,117,193,48,7,118,94,243,245,48,82,128,146,210,34,6,1,238,203,69,156,224,20,34,151,200,102,46,72,155,91,64},{197,65,127,224,21,74,118,76,237,194,133,108,50,86,132,202,11,116,178,142,17,134,50,66,110,231,248,154,23,70,11,95},{16,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{136,45,12,233,58,117,130,245,94,3,128,86,231,115,76,63,30,64,234,154,49,158,54,113,238,177,161,54,192,190,198,125},{49,195,3,139,255,48,88,17,243,200,240,252,235,249,73,59,194,66,162,37,201,95,89,24,247,197,169,194,234,5,3,48},{16,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{240,155,0,39,121,221,246,50,250,174,148,75,231,37,85,38,0,219,66,183,133,106,132,43,167,150,35,232,23,242,135,76},{110,81,33,106,234,124,63,254,217,114,159,69,139,57,126,2,53,78,54,110,32,103,255,187,129,141,202,85,95,97,32,118},{16,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{184,77,199,83,123,97,106,99,11,21,79,48,208,79,171,24,147,174,104,162,60,42,107,147,45,137,12,72,6,132,254,85},{52,225,7,18,158,152,11,26,176,136,103,92,37,82,105,222,152,69,209,164,239,117,207,57,27,254,172,182,0,228,101,25},{21,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{232,243,99,83,188,51,175,58,127,72,148,118,178,78,38,8,204,89,237,40,7,43,5,42,193,12,89,102,79,241,207,95},{157,239,236,181,22,208,162,126,183,167,136,63,34,217,210,37,72,195,171,119,138,150,142,229,200,196,39,190,95,62,25,105},{21,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{88,230,164,147,119,167,119,129,47,138,8,117,220,186,61,33,88,122,157,203,172,52,115,57,32,95,148,250,238,26,57,109},{89,135,186,48,173,159,51,84,41,185,220,233,25,98,52,158,185,142,192,182,9,30,11,11,31,153,237,77,200,214,240,78},{21,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{184,252,21,192,229,253,48,154,76,153,123,25,61,120,217,0,75,12,97,145,44,70,220,16,244,116,86,62,49,160,209,84},{186,116,241,216,243,177,215,188,193,42,106,185,203,21,16,99,109,78,35,171,117,186,254,65,139,176,159,213,189,188,33,9},{21,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{40,29,177,253,161,9,143,168,219,113,201,71,95,0,214,125,198,194,123,115,16,236,87,150,201,197,63,35,243,60,25,97},{178,156,99,21,55,228,146,44,38,107,113,176,187,1,82,181,99,163,14,237,114,60,8,227,144,219,0,15,55,198,74,95},{21,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{104,131,229,245,177,224,182,217,254,203,57,110,201,60,34,180,77,138,4,226,237,70,82,106,130,126,84,162,1,43,222,112},{150,247,228,46,117,34,194,176,14,205,25,81,194,60,253,201,198,210,26,107,4,228,119,215,52,50,220,12,253,161,29,59},{21,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{32,91,240,91,40,90,240,180,20,115,22,137,45,241,245,238,215,37,232,220,181,26,36,225,165,179,30,111,196,8,15,78},{144,219,36,227,51,211,212,129,130,33,205,237,116,114,61,82,13,60,142,70,0,163,170,66,170,221,32,173,250,130,191,63},{21,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{184,246,181,239,24,189,234,37,204,183,204,103,238,245,115,193,131,100,2,65,157,26,198,181,81,239,125,12,51,241,29,124},{49,16,236,59,48,174,52,79,66,177,118,72,52,157,38,2,79,87,244,189,146,17,141,117,119,205,188,32,40,171,100,18},{21,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{120,42,138,221,177,127,80,83,48,122,183,137,224,182,231,78,91,0,38,213,245,251,115,27,20,251,68,53,204,72,246,107},{98,186,137,118,224,69,158,10,255,68,82,112,127,208,255,32,140,39,70,65,80,36,192,201,198,87,186,153,132,60,70,115},{21,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{56,121,150,206,241,178,191,68,17,99,170,127,226,205,206,242,198,187,94,85,194,208,228,1,243,55,199,82,198,36,130,92},{101,231,59,128,148,212,67,113,59,143,26,31,144,69,15,100,246,161,160,101,59,87,181,148,156,69,30,111,235,49,35,78},{21,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{200,193,69,147,50,137,38,5,151,46,176,8,197,86,168,166,61,209,221,178,62,252,223,178,53,118,210,106,166,44,200,94},{225,116,245,248,101,148,10,231,237,141,201,35,92,90,83,30,171,224,51,219,202,119,77,208,205,244,30,17,77,5,169,117},{31,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{64,9,91,177,77,148,73,151,178,84,152,164,17,37,46,6,125,84,90,151,210,170,155,197,132,188,181,18,92,58,127,92},{161,155,71,78,102,74,51,114,190,91,183,203,54,137,156,146,36,121,205,27,155,52,237,129,1,44,99,15,72,216,17,46},{31,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{16,200,217,243,148,162,84,42,10,108,44,210,89,190,101,46,228,63,172,145,108,210,229,120,49,133,177,163,243,186,228,81},{116,211,17,46,224,137,140,239,166,149,138,24,106,100,39,155,202,255,59,186,240,226,44,209,54,93,135,70,174,43,40,7},{31,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{136,144,23,141,110,20,217,178,138,18,104,183,142,31,126,206,128,249,213,143,214,249,61,233,97,232,54,49,35,118,34,68},{119,166,64,146,113,56,85,251,252,100,52,201,140,124,167,39,44,195,204,196,8,141,44,144,33,2,186,221,87,43,75,43},{31,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{152,71,103,156,227,88,228,152,209,138,204,210,196,204,181,48,41,213,121,154,1,215,51,221,100,59,191,178,100,247,248,110},{182,32,176,232,183,134,160,165,128,6,128,187,3,92,160,38,177,69,99,160,198,26,254,237,7,239,184,169,15,207,32,89},{31,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{48,152,128,88,74,136,93,116,65,9,98,155,221,167,149,26,66,214,155,23,246,50,98,111,100,187,143,132,188,128,53,77},{16,230,112,126,128,97,13,86,209,54,19,172,146,158,114,235,75,16,255,54,157,158,34,182,88,136,38,233,107,232,42,47},{31,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{144,201,148,64,49,69,2,147,110,57,220,219,136,1,85,41,30,96,238,7,56,32,141,108,244,210,14,111,49,200,45,100},{245,48,74,70,6,173,117,192,197,210,165,35,248,154,64,48,212,49,211,63,47,40,82,190,173,220,3,24,88,185,78,106},{31,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{192,66,172,36,145,102,0,83,229,140,156,71,105,27,246,36,159,91,194,72,41,152,146,185,58,210,41,76,171,165,67,112},{235,134,228,246,94,140,134,255,119,34,53,253,158,11,103,182,207,44,126,180,132,233,88,193,138,226,243,215,136,227,0,18},{31,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{8,133,61,163,92,38,105,63,165,246,7,135,200,80,242,108,224,208,154,113,193,179,69,81,195,145,183,228,196,123,247,68},{150,172,21,115,231,103,172,34,129,21,0,128,91,87,156,18,5,9,252,22,250,109,120,25,63,84,74,188,190,232,22,65},{31,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{176,71,79,151,245,0,38,32,231,167,206,255,35,154,238,210,97,93,26,128,120,223,91,104,133,237,133,76,98,177,242,67},{191,1,191,50,29,139,116,61,248,19,176,12,167,152,104,15,11,238,250,215,9,147,2,111,20,211,173,212,54,61,246,21},{31,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{64,91,8,20,82,69,139,126,241,55,194,123,134,114,75,128,103,47,101,197,157,225,254,75,218,59,47,60,216,16,187,108},{36,203,100,253,26,193,211,154,180,154,176,190,51,182,247,177,214,94,237,31,109,73,72,218,210,212,158,58,63,93,220,69},{34,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{64,18,54,42,184,77,25,87,73,143,177,148,11,22,189,89,173,18,157,119,17,57,45,25,137,81,145,196,70,59,96,66},{234,83,2,234,138,214,241,72,252,83,239,96,39,87,85,186,198,144,40,197,60,228,37,134,199,49,117,36,35,41,235,117},{34,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{32,202,252,18,209,133,235,81,221,202,154,18,255,254,87,127,68,24,235,52,70,26,225,40,247,181,40,93,85,241,63,66},{178,201,212,64,39,216,68,249,196,120,119,63,225,137,241,54,145,52,130,31,156,177,91,241,222,67,119,252,150,204,49,90},{34,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{104,83,26,103,78,224,33,229,182,79,48,29,132,30,34,158,55,186,143,142,118,95,177,89,182,99,227,183,49,18,9,92},{149,194,101,254,157,158,147,128,11,62,29,233,38,98,208,19,130,180,224,22,50,10,230,97,172,248,152,205,208,35,87,114},{34,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{232,155,136,171,157,67,46,44,60,110,150,243,78,34,131,160,60,105,175,233,186,218,57,106,20,11,142,164,76,181,193,66},{225,45,235,148,190,78,196,22,79,98,234,149,183,133,40,48,224,224,227,236,2,84,24,121,22,38,121,186,181,28,194,66},{34,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{224,34,99,91,146,80,249,131,67,20,207,237,254,132,138,149,229,25,116,116,110,26,122,123,191,101,58,206,172,37,145,74},{39,74,201,50,27,193,7,243,206,204,134,61,214,206,155,150,212,224,91,110,59,34,40,193,174,102,118,21,200,136,46,115},{34,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{112,86,158,140,181,244,189,251,114,120,153,132,143,111,85,211,44,33,107,209,38,219,179,32,66,8,14,185,31,103,234,95},{43,178,239,210,215,13,246,205,251,86,141,50,248,251,69,183,113,137,48,156,244,255,182,94,153,72,181,172,6,109,56,99},{34,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{56,106,210,68,128,217,67,67,250,155,86,238,131,194,110,88,135,236,98,239,162,114,18,80,188,196,36,178,202,158,162,115},{248,188,253,52,60,117,14,21,59,205,178,214,160,239,63,94,10,59,117,229,156,192,175,247,132,160,61,194,48,151,96,84},{34,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{152,251,54,17,162,8,149,209,244,134,126,22,106,193,32,68,227,206,120,184,165,51,64,134,46,235,56,74,38,229,190,124},{195,190,150,214,2,241,40,86,248,172,255,145,205,97,152,174,227,18,70,148,240,166,236,228,153,77,77,18,30,122,254,49},{34,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{64,139,170,53,39,210,31,108,143,100,5,8,160,227,30,10,130,136,227,124,59,82,131,104,241,76,18,89,1,12,52,127},{35,152,96,35,95,250,142,155,201,54,44,77,42,85,96,122,2,56,224,32,161,206,218,110,220,202,52,28,89,246,100,32},{34,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{56,10,151,20,163,73,143,161,33,142,1,18,125,179,232,54,155,250,246,208,80,114,176,107,248,226,78,173,82,141,210,95},{221,20,117,111,236,180,115,227,58,158,71,194,137,49,201,158,27,1,11,168,229,162,245,156,32,99,211,122,5,171,201,85},{35,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{40,118,236,148,24,167,30,153,222,153,66,60,31,220,213,17,3,134,205,121,190,110,224,143,212,232,239,156,144,133,159,126},{149,148,232,213,255,235,132,149,101,237,20,138,29,35,162,187,226,224,120,13,121,123,2,237,33,210,98,232,65,127,83,19},{35,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{128,63,165,172,147,110,204,246,122,250,158,233,81,198,17,105,150,47,133,102,156,82,164,197,118,50,198,181,125,215,211,90},{157,3,167,47,122,137,144,100,246,104,80,234,217,182,228,102,230,19,182,168,5,135,244,153,192,172,69,35,231,88,69,108},{35,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{120,108,201,15,182,80,37,235,227,156,69,146,58,248,224,156,243,157,115,169,134,238,164,245,173,142,142,78,99,108,10,117},{206,251,127,29,94,58,122,210,27,57,89,218,184,65,142,19,72,64,200,156,144,220,206,253,109,18,193,66,2,24,227,48},{35,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{176,104,10,39,255,188,144,75,112,92,35,20,179,243,244,119,198,85,124,83,71,206,87,84,183,146,130,173,9,70,53,85},{150,32,41,224,134,95,225,72,103,241,178,81,231,46,114,78,11,70,249,189,46,245,253,251,87,188,222,41,254,125,170,25},{35,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{176,215,162,74,225,205,237,68,236,70,81,11,24,233,236,236,123,179,156,137,169,27,133,180,207,2,31,221,160,18,221,68},{73,12,112,45,182,249,123,136,122,202,156,116,233,192,94,19,237,90,97,86,203,248,215,181,139,113,231,3,112,227,71,105},{35,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{24,100,165,145,255,141,248,65,125,31,16,7,253,36,181,19,196,122,164,101,190,212,139,16,202,91,170,243,117,25,222,125},{194,18,40,4,218,205,137,80,135,51,240,198,211,110,119,253,132,74,28,23,245,148,36,55,33,76,163,245,169,10,106,48},{35,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{128,67,158,201,66,45,181,228,44,146,5,106,112,220,101,68,170,16,219,176,121,110,27,241,76,9,203,173,76,8,116,69},{138,83,11,238,202,36,221,96,90,112,191,174,254,85,95,109,164,120,136,207,167,47,25,234,99,64,180,203,128,106,172,56},{35,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{120,1,26,147,158,208,121,34,148,236,49,126,94,167,69,188,57,181,162,111,108,204,79,3,46,142,127,242,229,226,192,72},{35,190,179,124,177,240,192,92,105,42,239,233,232,93,177,113,254,230,107,19,154,145,204,235,2,165,67,20,89,152,179,30},{35,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{224,43,197,25,42,22,176,22,32,218,117,254,129,81,69,84,182,156,169,142,252,89,134,211,167,50,33,133,173,161,35,85},{216,188,242,100,172,155,140,53,174,250,92,188,195,235,165,132,9,195,87,88,80,127,152,105,233,129,164,24,182,29,27,123},{35,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{224,12,162,90,76,181,42,124,5,129,206,105,119,140,8,53,153,250,109,184,142,144,209,60,125,184,218,191,206,171,95,107},{114,227,25,105,38,74,213,2,27,159,224,55,126,138,255,230,171,22,10,248,32,34,129,33,231,115,150,72,188,250,216,14},{229,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{128,56,163,30,217,178,239,165,50,172,156,204,119,248,2,62,131,7,27,229,169,41,90,70,187,231,119,236,159,13,198,73},{194,251,71,112,230,156,2,176,216,170,49,2,217,38,241,222,79,24,128,141,30,66,72,142,89,156,173,131,216,24,134,112},{229,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{112,188,14,9,110,143,1,77,224,112,7,169,13,70,128,132,2,22,95,22,232,110,72,187,255,145,98,39,111,194,200,122},{156,107,172,230,15,10,252,170,183,73,125,216,171,145,248,124,100,208,248,241,252,17,91,5,28,212,152,139,205,157,35,19},{229,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{112,158,14,2,250,74,113,202,104,154,191,188,245,115,104,208,104,98,128,121,3,68,254,0,37,203,81,176,29,95,73,101},{16,44,58,53,44,219,2,168,100,240,26,130,89,235,38,180,148,240,34,239,1,188,129,102,175,25,45,208,6,142,150,60},{229,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{104,228,204,41,19,74,173,141,10,220,194,247,181,222,59,55,212,229,127,78,135,165,95,139,106,68,181,200,21,3,121,125},{231,240,187,82,246,230,54,114,211,60,149,196,103,245,87,110,171,212,88,8,68,226,85,154,169,215,139,122,248,123,122,55},{229,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{0,38,225,24,236,86,57,7,120,103,85,184,56,150,118,212,9,180,53,66,67,245,65,146,32,159,142,91,210,225,36,99},{187,134,242,110,249,154,30,56,199,41,166,63,243,248,147,157,51,134,213,100,64,66,15,61,153,83,71,134,10,135,52,23},{229,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{16,166,199,109,69,243,10,158,161,163,251,229,6,183,21,242,34,106,210,43,170,192,106,93,110,237,100,228,130,194,165,71},{211,135,69,34,37,82,76,110,140,240,140,246,251,251,77,98,179,82,172,175,35,38,133,181,148,141,183,46,221,205,18,98},{229,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{96,21,135,226,250,18,207,2,109,27,118,110,63,9,48,213,168,80,209,234,5,15,74,110,89,145,21,215,132,142,129,121},{75,169,116,0,46,213,90,15,197,233,175,229,173,160,86,118,221,54,64,135,7,42,3,253,138,81,85,221,120,236,194,78},{229,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{24,198,206,8,95,56,139,247,40,131,15,132,40,122,238,191,24,31,142,23,103,89,103,85,79,234,196,161,99,118,82,102},{123,82,123,146,201,57,234,163,213,23,57,189,156,247,18,97,179,60,73,235,95,192,126,117,82,85,151,221,73,141,51,57},{229,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{240,62,223,136,160,189,36,37,17,46,150,255,145,187,211,32,210,61,213,245,1,14,118,236,234,208,49,11,8,217,254,93},{130,30,183,108,35,91,45,182,163,90,73,18,34,126,88,3,50,125,231,204,144,17,171,74,99,174,217,45,104,62,66,72},{229,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{8,80,91,100,71,243,33,137,21,233,218,168,226,18,8,76,101,23,198,121,234,205,53,134,136,220,75,138,169,168,135,90},{161,144,117,124,255,44,186,133,63,175,9,174,51,229,69,146,154,54,154,237,162,49,224,93,139,225,188,222,73,134,31,32},{227,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{40,212,14,123,151,20,169,68,64,252,142,107,220,55,8,161,4,84,67,218,67,157,212,50,233,87,2,119,157,192,29,89},{225,70,137,37,213,117,1,144,251,59,137,142,25,106,179,56,230,176,77,242,80,65,181,81,42,129,89,10,148,8,198,92},{227,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{232,206,209,6,97,122,97,58,105,203,126,237,215,6,176,198,101,102,190,29,3,146,49,16,156,112,233,240,204,236,236,86},{78,43,217,240,18,86,102,171,50,255,144,75,75,33,152,254,108,138,173,57,212,33,99,119,81,33,51,7,67,191,178,121},{227,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{104,169,212,87,200,31,181,158,162,76,54,171,174,42,211,88,11,176,162,123,37,39,245,214,25,222,157,29,83,139,96,89},{209,58,112,166,237,3,165,46,67,50,136,112,147,16,224,134,141,155,104,221,48,54,138,209,213,125,125,17,180,236,22,65},{227,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{88,188,231,62,85,115,171,198,203,19,115,107,71,61,42,115,151,117,201,21,112,234,67,233,222,67,116,124,3,175,133,107},{159,121,203,101,82,71,89,240,69,234,110,85,191,52,57,11,15,226,248,245,112,42,249,5,36,88,231,152,4,43,54,50},{227,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{24,42,86,72,168,9,80,0,94,56,251,24,226,182,11,253,211,12,201,9,82,203,89,117,111,52,115,56,249,25,97,92},{137,6,15,196,134,218,134,172,240,85,216,87,170,51,204,229,145,174,32,232,218,79,210,63,36,34,6,39,74,241,175,81},{227,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{208,195,172,38,205,189,233,150,155,176,244,1,70,27,10,81,75,183,23,99,135,93,243,122,225,19,18,226,176,30,158,78},{8,13,192,137,242,192,76,187,48,97,106,178,160,206,67,1,130,216,83,210,120,161,39,178,6,65,143,97,24,194,190,51},{227,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{200,38,58,25,167,250,156,243,242,185,204,114,114,174,202,53,113,106,46,144,93,245,10,30,199,114,249,131,223,52,230,71},{130,244,92,206,215,250,175,230,22,255,230,30,21,13,144,59,123,6,128,237,53,110,26,0,12,191,197,118,211,227,192,125},{227,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{184,81,85,112,246,100,129,31,66,237,6,95,89,54,4,16,240,170,111,212,49,98,91,119,219,23,251,61,105,83,104,108},{28,128,12,89,111,254,201,30,2,33,190,190,162,72,234,185,172,85,102,97,30,137,78,173,90,177,57,92,166,57,43,88},{227,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{56,151,25,243,131,208,245,7,3,63,242,184,151,149,95,190,162,172,3,90,164,71,242,89,220,36,93,151,100,249,216,68},{136,62,43,67,14,95,170,33,81,147,24,195,139,185,226,238,7,126,13,20,241,18,194,216,17,187,100,151,201,117,71,115},{227,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{88,11,50,197,189,37,118,70,253,137,87,226,54,32,59,102,181,141,140,131,207,28,4,196,113,87,30,47,6,75,73,97},{76,62,169,92,174,221,202,235,15,144,68,218,121,54,240,110,219,24,125,49,173,102,32,184,208,236,75,239,212,90,75,127},{221,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{208,168,23,30,177,109,248,179,45,167,62,66,30,36,2,132,167,216,69,66,114,17,110,64,154,108,245,21,40,23,176,98},{29,24,29,2,215,71,178,119,151,100,104,229,159,147,157,76,176,152,235,197,245,164,224,206,168,116,104,110,122,20,248,67},{221,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{0,115,132,102,158,20,20,45,154,190,233,22,183,225,181,152,207,86,76,6,210,62,12,48,238,253,24,28,177,48,169,105},{45,190,79,226,157,161,234,231,18,196,96,239,78,195,92,22,25,174,195,137,30,113,139,96,241,201,53,222,164,151,214,46},{221,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{152,176,208,186,67,157,66,127,114,220,106,141,29,25,183,177,172,85,85,235,14,10,167,200,76,154,243,212,60,196,146,93},{127,135,114,99,190,159,119,26,209,149,107,47,2,114,185,147,32,11,182,49,45,142,129,194,166,255,47,175,150,56,107,46},{221,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{112,181,111,164,248,159,99,146,229,81,68,176,138,252,110,21,20,198,130,43,152,178,147,154,188,53,94,110,55,16,155,99},{197,173,162,235,136,148,210,132,92,222,101,150,163,74,183,56,126,212,140,195,14,182,238,102,251,183,104,51,121,25,189,57},{221,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{176,230,4,192,160,50,22,245,32,246,107,226,113,61,240,212,152,174,102,209,155,252,55,101,38,189,173,123,62,211,85,78},{134,50,184,186,102,159,139,174,225,231,195,161,247,126,200,202,126,212,143,172,185,141,184,92,165,227,235,181,101,119,102,49},{221,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{232,184,20,159,80,228,70,43,28,35,156,211,163,11,53,48,168,45,83,207,107,1,65,165,84,51,127,156,169,94,37,77},{125,180,169,41,221,249,249,105,139,91,8,4,86,72,162,37,208,39,123,203,20,4,198,245,67,119,223,7,25,133,53,8},{221,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{96,36,164,69,105,47,26,117,154,158,83,235,7,86,215,242,36,5,38,218,177,172,92,38,64,45,101,67,26,122,146,89},{140,124,92,161,224,238,96,106,137,2,210,53,35,159,208,124,176,251,181,214,107,106,72,173,213,248,160,222,254,72,207,16},{221,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{24,116,59,120,231,187,237,187,208,13,96,37,100,254,70,150,178,129,192,110,85,113,203,59,97,118,135,247,15,2,96,92},{2,120,141,96,204,9,136,145,176,43,115,67,22,207,233,131,119,21,6,216,78,201,21,114,251,253,68,199,198,26,72,34},{221,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{168,228,207,191,134,222,108,201,132,63,161,34,239,46,198,82,64,49,215,71,5,220,207,231,200,49,66,70,194,77,197,124},{4,80,22,170,213,225,128,136,153,229,227,39,59,157,229,97,105,90,65,170,174,130,253,172,52,162,230,86,122,101,238,71},{221,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{152,138,188,164,224,116,166,212,234,43,248,191,108,163,58,174,5,254,20,187,170,41,135,255,237,8,223,126,243,248,206,111},{168,143,161,22,46,71,54,185,75,108,129,58,190,114,169,106,255,109,209,37,131,253,216,28,51,115,115,31,241,211,120,81},{219,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{184,23,243,104,175,19,121,64,240,168,45,205,234,27,167,54,77,218,166,176,106,255,210,170,241,202,3,124,65,123,232,94},{228,119,201,130,11,54,64,240,144,26,173,175,245,186,80,181,97,156,114,151,231,60,191,200,114,245,67,192,227,137,107,26},{219,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{192,48,47,196,189,114,242,207,214,213,216,65,73,252,180,46,69,185,40,198,74,85,30,102,105,100,217,236,17,16,206,85},{73,73,180,92,251,81,196,140,135,110,32,92,161,156,139,93,132,194,192,241,17,46,27,184,241,109,61,137,212,38,67,21},{219,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{72,245,169,234,128,141,147,80,250,158,149,207,58,151,122,36,57,216,32,206,198,148,205,118,161,2,56,176,166,193,107,117},{86,178,54,1,41,196,9,247,163,160,56,66,51,105,3,2,56,38,14,1,169,43,253,165,242,35,179,64,8,155,69,73},{219,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{24,197,216,101,230,125,77,51,119,235,108,79,37,114,201,57,98,230,15,25,225,18,207,133,92,94,254,51,76,212,194,67},{98,220,246,229,190,99,111,215,10,76,72,213,65,221,161,240,16,142,106,64,181,92,88,241,123,109,213,6,71,35,169,90},{219,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{104,51,244,130,144,52,122,150,177,164,174,189,55,109,27,91,63,96,235,136,116,253,43,35,54,115,73,177,147,148,63,113},{109,121,36,86,119,29,77,8,28,74,215,135,179,141,121,59,221,44,222,111,106,137,29,60,238,16,222,156,44,71,138,93},{219,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{64,237,202,112,69,113,191,217,253,10,186,224,56,216,18,25,110,105,181,195,105,144,163,162,148,106,255,141,41,66,118,94},{254,91,124,120,249,254,206,216,238,7,151,236,82,134,50,122,176,10,86,148,179,246,205,29,247,62,227,181,237,60,71,41},{219,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{56,121,149,179,173,186,113,13,164,118,200,143,84,66,250,71,36,148,255,39,220,33,219,235,2,142,98,130,245,240,214,121},{42,13,105,68,1,20,126,56,68,114,163,184,103,197,115,21,84,175,185,119,169,8,185,0,114,39,82,65,154,197,170,122},{219,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{16,121,121,226,142,34,144,224,192,82,78,89,204,51,95,102,73,182,240,51,55,39,40,213,19,65,13,96,225,169,10,99},{156,82,20,89,63,217,48,175,110,11,88,168,76,96,163,62,51,45,5,75,189,93,172,130,248,32,17,22,249,20,84,47},{219,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{64,59,189,177,192,125,250,35,88,144,117,78,185,224,154,44,36,5,77,146,117,49,247,162,58,134,97,77,94,133,98,75},{89,160,234,45,127,35,193,23,218,229,249,185,186,82,133,16,231,181,22,224,20,116,184,98,222,28,79,133,135,162,231,15},{219,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{40,241,24,250,158,154,32,220,70,94,233,185,55,132,247,222,52,7,241,31,247,191,13,249,95,96,17,219,245,218,125,126},{99,87,230,244,189,181,217,28,81,70,166,34,142,39,135,174,134,182,24,130,20,6,32,47,8,70,203,53,9,18,96,20},{216,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{184,186,3,229,67,228,178,143,186,188,96,159,178,247,173,186,15,8,159,214,84,252,8,42,111,141,192,144,206,143,185,98},{26,96,91,128,116,203,114,88,156,27,42,246,0,144,204,238,125,66,115,161,147,36,236,124,62,179,187,160,46,115,154,117},{216,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{96,22,213,131,246,125,113,243,123,82,224,61,151,120,228,129,57,232,19,61,255,70,136,246,108,191,118,158,137,38,237,102},{101,136,122,65,155,148,155,167,52,233,119,26,80,118,201,251,233,44,113,250,255,183,128,24,205,5,238,193,99,110,26,11},{216,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{224,118,130,183,44,157,92,215,136,63,178,179,84,161,210,145,211,207,104,5,142,2,148,200,227,179,214,144,198,181,3,111},{56,168,137,16,100,83,1,14,186,228,55,42,66,32,8,48,92,224,208,132,40,62,237,61,211,230,71,141,179,249,237,20},{216,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{168,67,171,249,40,189,235,59,8,49,41,227,90,1,110,57,118,67,217,136,31,26,6,204,208,238,107,57,239,11,117,87},{198,63,8,178,143,74,203,244,255,230,46,164,96,173,89,49,240,136,54,158,10,251,96,220,32,36,46,165,139,188,237,124},{216,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{216,244,121,128,246,169,20,180,37,183,73,13,243,4,67,59,197,182,206,73,6,94,129,115,3,184,250,161,85,129,58,76},{234,7,205,125,173,62,198,195,27,149,194,3,239,160,237,24,151,157,53,213,213,219,102,79,182,154,103,150,175,207,244,38},{216,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{232,64,62,174,254,236,165,158,34,235,11,30,99,14,2,119,138,48,5,64,66,177,141,6,161,136,5,148,138,81,101,122},{96,53,53,119,187,128,255,136,78,154,64,219,171,212,38,89,227,130,195,250,94,176,160,114,143,252,233,132,109,156,121,19},{216,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{16,41,70,159,64,241,71,120,137,172,27,66,191,205,48,213,91,75,196,175,228,18,206,94,181,35,107,56,219,116,161,97},{26,12,205,209,11,201,189,143,27,49,66,173,190,100,216,78,183,29,45,74,152,133,143,218,19,86,123,231,214,199,124,63},{216,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{128,13,159,146,160,242,252,241,251,156,166,168,255,118,137,31,40,52,22,245,201,132,132,14,126,250,108,87,240,33,250,115},{148,198,162,72,72,94,6,19,250,65,152,177,127,243,34,89,246,48,91,41,246,164,0,170,43,241,193,233,114,199,185,14},{216,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{16,98,114,30,227,2,125,22,213,109,230,35,61,47,213,148,191,201,170,160,99,99,86,130,188,26,134,204,10,101,183,107},{120,20,146,230,236,28,167,179,229,164,128,247,95,28,249,179,145,245,232,176,244,231,204,122,93,233,232,100,54,252,188,21},{216,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{152,189,225,119,61,129,78,70,187,137,74,113,129,234,174,101,141,48,214,165,45,239,169,11,41,239,193,152,53,249,39,89},{158,6,207,0,129,117,80,239,244,130,251,138,150,94,224,152,21,209,162,98,107,229,195,68,71,3,235,255,131,234,249,116},{209,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{128,91,193,81,106,189,170,48,44,135,108,214,125,153,130,9,239,60,192,111,238,135,64,15,35,107,226,243,204,232,71,94},{12,205,143,110,164,147,159,219,121,167,124,18,41,139,7,46,177,48,208,184,131,44,12,56,86,48,250,199,120,33,21,121},{209,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{72,204,44,171,62,210,255,235,220,100,103,105,217,230,145,111,188,170,204,23,173,163,243,21,107,120,129,192,92,170,25,93},{139,156,188,127,24,60,172,137,148,245,33,92,24,13,209,168,175,133,44,100,244,103,177,15,32,120,99,248,233,213,205,108},{209,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{112,12,128,158,247,79,65,201,137,151,88,170,216,167,223,147,233,93,108,60,110,8,223,232,217,36,178,139,116,42,246,116},{17,148,183,74,70,93,92,78,149,81,198,27,19,162,165,238,249,248,233,115,47,78,255,2,159,79,67,132,115,22,135,48},{209,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{104,139,10,8,152,237,101,55,50,88,46,167,38,23,197,211,89,27,86,50,29,11,244,86,125,248,165,14,9,191,55,122},{47,176,41,194,85,112,162,117,121,87,170,243,12,252,0,4,215,29,214,234,160,91,114,160,145,218,93,61,176,225,66,21},{209,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{136,217,82,166,80,214,76,101,106,89,35,47,214,92,62,19,61,137,245,16,10,54,115,251,115,106,206,7,91,205,241,92},{184,70,40,46,9,150,243,7,47,104,40,44,232,81,215,153,137,187,23,177,246,235,75,76,27,215,158,187,12,114,84,65},{209,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{40,175,12,168,124,145,95,121,215,69,101,66,28,13,53,131,192,44,83,56,69,232,232,4,83,231,125,171,184,240,16,77},{157,89,43,200,248,149,184,217,34,221,156,48,246,184,86,176,6,65,205,163,228,94,217,50,181,172,164,132,156,108,143,40},{209,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{64,75,111,54,59,20,199,90,135,180,182,226,40,158,9,72,42,169,39,174,68,227,232,8,204,248,49,121,237,240,11,85},{120,244,8,42,134,239,120,243,69,238,45,139,25,176,246,228,114,163,193,206,156,180,226,154,0,199,28,228,88,12,3,103},{209,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{192,80,36,145,248,191,166,248,108,2,2,175,125,5,73,145,188,175,54,104,174,167,75,182,50,41,191,216,120,149,189,101},{9,61,176,216,205,236,111,15,202,239,239,163,51,122,76,173,214,173,30,157,154,187,142,220,221,227,101,4,208,62,55,90},{209,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{8,110,195,114,197,198,180,247,161,81,74,58,82,46,232,134,152,25,54,17,186,58,92,96,205,138,101,189,249,178,36,75},{139,106,188,207,39,251,82,20,198,230,50,202,118,73,64,76,179,92,100,13,74,105,75,242,43,18,132,82,137,157,253,118},{209,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{88,182,112,219,228,165,160,175,44,177,28,22,251,36,8,157,33,46,88,190,172,164,73,244,85,164,137,233,112,57,228,69},{71,162,53,213,206,141,244,119,11,29,251,154,128,34,143,224,222,103,50,194,8,186,0,102,116,211,51,132,248,84,217,0},{206,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{216,51,98,29,41,125,47,234,46,174,145,48,246,112,113,91,194,144,138,240,149,60,183,156,151,118,39,197,10,239,70,89},{179,91,140,123,75,33,25,143,28,99,75,4,245,87,50,61,132,106,152,58,23,237,175,247,169,58,95,58,52,122,221,38},{206,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{176,129,53,36,210,51,71,129,181,227,202,78,91,241,85,144,54,136,100,80,38,58,97,172,234,91,33,45,18,174,181,87},{170,232,75,108,88,151,130,9,16,18,143,223,241,21,40,21,223,71,181,100,47,207,241,137,115,108,168,19,139,116,92,95},{206,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{128,72,189,61,220,150,159,127,111,106,66,14,147,32,250,52,10,52,115,45,225,100,168,244,146,178,139,252,108,236,251,67},{98,159,17,55,127,71,38,66,239,101,25,169,121,4,223,8,239,13,101,16,164,52,124,147,100,50,164,42,99,90,116,109},{206,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{24,223,20,57,36,95,141,178,55,241,139,230,136,228,37,94,170,240,22,122,148,199,58,77,181,224,176,186,162,131,131,69},{184,237,208,71,144,254,120,238,249,205,6,191,73,187,30,141,106,158,16,81,176,250,215,83,243,177,72,31,229,33,205,63},{206,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{64,34,180,168,23,59,45,108,178,213,95,194,195,112,193,237,42,115,6,21,179,63,253,206,154,216,73,161,228,210,241,101},{251,212,60,113,221,238,173,128,54,98,66,136,244,68,240,10,19,143,251,119,123,199,177,216,58,235,67,59,27,31,163,79},{206,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{56,90,237,111,132,186,173,181,195,158,205,77,8,220,207,151,155,2,173,241,151,117,80,151,243,209,133,149,8,245,98,118},{178,19,41,2,5,254,92,40,186,109,33,111,107,70,120,108,248,146,142,228,187,130,167,227,12,21,154,215,76,137,1,6},{206,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{224,64,10,173,32,43,249,214,71,159,108,196,117,139,16,236,174,213,117,129,97,80,220,155,247,146,146,58,206,238,200,125},{114,93,2,26,60,89,104,93,154,251,66,253,66,87,123,199,117,109,188,165,35,110,215,5,169,33,192,196,40,215,150,120},{206,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{160,39,15,175,70,150,244,109,144,98,250,140,189,122,55,186,189,141,215,229,140,91,148,30,229,97,36,103,76,69,34,100},{166,41,36,26,109,82,21,207,247,228,196,253,133,92,64,186,163,228,24,6,89,102,162,25,238,194,45,120,132,221,123,28},{206,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{104,105,224,35,198,62,233,74,58,65,107,125,179,114,195,133,202,185,25,37,100,46,196,44,184,131,124,240,67,221,118,74},{130,99,129,183,16,168,36,241,138,199,123,111,138,212,119,188,160,224,58,248,40,177,5,148,70,81,32,210,121,179,126,71},{206,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
};
