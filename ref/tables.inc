static const int NS[4][7] = {{20,40,60,80,120,120,240},{40,80,120,160,240,240,480},{60,120,180,240,360,360,720},{80,160,240,320,480,480,960}};
static const int ND[4][7] = {{20,40,60,80,120,120,240},{30,60,90,120,180,180,360},{46,92,138,184,276,276,552},{50,100,150,200,300,300,600}};
static const int BANDS[28][65] = {{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,32,34,36,38,40,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,28,30,32,34,36,38,40,42,44,47,50,53,56,60,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,26,28,30,32,34,36,38,40,43,46,49,52,55,59,63,67,71,75,80,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,23,25,27,29,31,33,35,37,40,43,46,49,52,56,60,64,68,72,77,82,87,93,100,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,21,23,25,27,29,31,33,35,37,40,43,46,49,53,57,61,65,69,74,79,85,91,97,104,112,120,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,18,20,22,24,26,28,30,32,35,38,41,45,49,53,57,62,67,73,79,85,92,100,108,117,127,137,149,161,174,189,204,221,240,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,40,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,32,34,36,38,40,42,44,46,48,50,52,54,57,60,63,66,69,72,76,80,0,0,0,0,0,0,0,0,0,0,0,0,0,0},{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,26,28,30,32,34,36,38,40,42,44,47,50,53,56,59,62,65,69,73,77,81,86,91,96,101,107,113,120,0,0,0,0,0,0,0,0,0,0,0,0},{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,24,26,28,30,32,34,36,38,40,42,45,48,51,54,57,61,65,69,73,78,83,88,93,99,105,112,119,126,134,142,151,160,0,0,0,0,0,0,0,0,0,0},{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,23,25,27,29,31,33,35,37,40,43,46,49,52,55,59,63,67,72,77,82,87,93,99,105,112,120,128,136,145,155,165,176,187,200,0,0,0,0,0,0,0,0,0},{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,21,23,25,27,29,31,33,35,38,41,44,47,50,54,58,62,66,71,76,81,87,93,100,107,114,122,131,140,149,160,171,183,196,209,224,240,0,0,0,0,0,0,0,0,0},{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,19,21,23,25,27,29,31,34,37,40,44,48,52,56,61,66,71,77,83,90,98,106,115,124,135,146,158,171,185,200,217,235,254,275,298,323,349,378,409,443,480,0,0,0,0,0,0},{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,0,0,0,0},{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,36,38,40,42,44,46,48,50,52,54,56,58,60,62,65,68,71,74,77,80,83,86,90,94,98,102,106,110,115,120},{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,29,31,33,35,37,39,41,43,45,47,49,52,55,58,61,64,67,70,74,78,82,86,90,95,100,105,110,115,121,127,134,141,148,155,163,171,180},{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,26,28,30,32,34,36,38,40,42,45,48,51,54,57,60,63,67,71,75,79,84,89,94,99,105,111,117,124,131,138,146,154,163,172,182,192,203,215,227,240},{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,24,26,28,30,32,34,36,38,40,43,46,49,52,55,59,63,67,71,75,80,85,90,96,102,108,115,122,129,137,146,155,165,175,186,197,209,222,236,251,266,283,300},{0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},{0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,51,53,55,57,59,61,63,65,67,69,71,73,75,77,80},{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,30,32,34,36,38,40,42,44,46,48,50,52,55,58,61,64,67,70,73,76,80,84,88,92,96,101,106,111,116,121,127,133,139,146,153,160},{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,25,27,29,31,33,35,37,39,41,43,46,49,52,55,58,61,64,68,72,76,80,85,90,95,100,106,112,118,125,132,139,147,155,164,173,183,193,204,215,227,240},{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,22,24,26,28,30,32,34,36,38,41,44,47,50,53,56,60,64,68,72,76,81,86,91,97,103,109,116,123,131,139,148,157,166,176,187,199,211,224,238,252,268,284,302,320},{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,20,22,24,26,28,30,32,34,36,39,42,45,48,51,55,59,63,67,71,76,81,86,92,98,105,112,119,127,135,144,154,164,175,186,198,211,225,240,256,273,291,310,330,352,375,400},{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,19,21,23,25,27,29,31,33,36,39,42,45,48,51,55,59,63,67,72,77,83,89,95,101,108,116,124,133,142,152,163,174,187,200,214,229,244,262,280,299,320,343,367,392,419,449,480},{0,1,2,3,4,5,6,7,8,9,10,11,12,14,16,18,20,22,24,26,28,30,33,36,39,42,46,50,54,59,64,69,75,82,89,96,104,113,122,132,143,155,168,181,196,213,230,249,270,292,316,342,371,401,434,470,509,551,596,646,699,757,819,887,960}};
static const int BANDS_LEN[28] = {21,36,41,44,45,46,50,40,51,53,55,56,56,59,61,65,65,65,65,1,1,65,65,65,65,65,65,65};
static const double WIN[28][1920] = {{0.0067379144,0.0273228958,0.0616356097,0.111912504,0.17870535,0.260752499,0.354977638,0.456769675,0.560523927,0.660366535,0.750943422,0.828138232,0.889585018,0.934874773,0.965405703,0.983902633,0.993718088,0.998098731,0.999626637,0.999977291,0.999977291,0.999626637,0.998098731,0.993718088,0.983902633,0.965405703,0.934874773,0.889585018,0.828138232,0.750943422,0.660366535,0.560523927,0.456769675,0.354977638,0.260752499,0.17870535,0.111912504,0.0616356097,0.0273228958,0.0067379144,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},{0.00476441615,0.0120463628,0.0222639654,0.0358022311,0.0529905465,0.074085184,0.0992538592,0.128563118,0.161969244,0.199313241,0.240320282,0.284603818,0.331674323,0.380952458,0.431786202,0.483471316,0.535274327,0.586457098,0.636301916,0.684136019,0.729354445,0.771440129,0.809980291,0.844678279,0.875360204,0.901975984,0.924594627,0.943393949,0.958645225,0.97069365,0.979935831,0.986795807,0.991701328,0.995062145,0.997251917,0.998595014,0.999358895,0.999752127,0.99992744,0.99998865,0.99998865,0.99992744,0.999752127,0.999358895,0.998595014,0.997251917,0.995062145,0.991701328,0.986795807,0.979935831,0.97069365,0.958645225,0.943393949,0.924594627,0.901975984,0.875360204,0.844678279,0.809980291,0.771440129,0.729354445,0.684136019,0.636301916,0.586457098,0.535274327,0.483471316,0.431786202,0.380952458,0.331674323,0.284603818,0.240320282,0.199313241,0.161969244,0.128563118,0.0992538592,0.074085184,0.0529905465,0.0358022311,0.0222639654,0.0120463628,0.00476441615,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},{0.00389013421,0.00820259508,0.0137023556,0.0205296853,0.0288030773,0.0386278514,0.0500956972,0.0632829654,0.0782488109,0.0950334651,0.113656749,0.134116888,0.156389671,0.180427981,0.206161727,0.233498181,0.26232272,0.292499991,0.32387545,0.356277288,0.389518694,0.423400416,0.457713594,0.492242792,0.52676919,0.561073868,0.59494112,0.628161737,0.660536189,0.691877646,0.722014766,0.750794208,0.778082793,0.803769285,0.827765737,0.850008365,0.870457945,0.889099694,0.905942652,0.92101856,0.934380273,0.946099727,0.956265526,0.964980202,0.972357239,0.978517931,0.983588198,0.987695434,0.990965519,0.993520077,0.995474078,0.996933861,0.997995624,0.998744422,0.999253666,0.999585105,0.999789244,0.999906118,0.999966358,0.999992433,0.999992433,0.999966358,0.999906118,0.999789244,0.999585105,0.999253666,0.998744422,0.997995624,0.996933861,0.995474078,0.993520077,0.990965519,0.987695434,0.983588198,0.978517931,0.972357239,0.964980202,0.956265526,0.946099727,0.934380273,0.92101856,0.905942652,0.889099694,0.870457945,0.850008365,0.827765737,0.803769285,0.778082793,0.750794208,0.722014766,0.691877646,0.660536189,0.628161737,0.59494112,0.561073868,0.52676919,0.492242792,0.457713594,0.423400416,0.389518694,0.356277288,0.32387545,0.292499991,0.26232272,0.233498181,0.206161727,0.180427981,0.156389671,0.134116888,0.113656749,0.0950334651,0.0782488109,0.0632829654,0.0500956972,0.0386278514,0.0288030773,0.0205296853,0.0137023556,0.00820259508,0.00389013421,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},{0.00336895835,0.00645555741,0.0101430808,0.0145212685,0.0196507673,0.025583528,0.0323662853,0.0400411787,0.0486456418,0.0582120708,0.068767429,0.0803328498,0.092923266,0.106547081,0.121205893,0.136894275,0.153599623,0.171302066,0.189974455,0.209582413,0.230084468,0.251432255,0.27357079,0.296438816,0.319969212,0.344089476,0.368722258,0.393785956,0.419195353,0.444862309,0.470696475,0.49660605,0.522498546,0.548281575,0.573863636,0.599154896,0.624067964,0.648518633,0.672426605,0.695716161,0.718316799,0.740163807,0.76119878,0.781370064,0.800633131,0.81895087,0.836293796,0.852640176,0.867976054,0.882295205,0.895598976,0.90789606,0.919202165,0.929539615,0.938936863,0.947427941,0.955051846,0.961851871,0.9678749,0.973170662,0.977790986,0.981789034,0.985218555,0.988133167,0.990585664,0.992627388,0.994307658,0.995673273,0.996768094,0.997632718,0.99830424,0.9988161,0.99919803,0.999476075,0.999672688,0.999806905,0.999894561,0.999948558,0.999979163,0.999994325,0.999994325,0.999979163,0.999948558,0.999894561,0.999806905,0.999672688,0.999476075,0.99919803,0.9988161,0.99830424,0.997632718,0.996768094,0.995673273,0.994307658,0.992627388,0.990585664,0.988133167,0.985218555,0.981789034,0.977790986,0.973170662,0.9678749,0.961851871,0.955051846,0.947427941,0.938936863,0.929539615,0.919202165,0.90789606,0.895598976,0.882295205,0.867976054,0.852640176,0.836293796,0.81895087,0.800633131,0.781370064,0.76119878,0.740163807,0.718316799,0.695716161,0.672426605,0.648518633,0.624067964,0.599154896,0.573863636,0.548281575,0.522498546,0.49660605,0.470696475,0.444862309,0.419195353,0.393785956,0.368722258,0.344089476,0.319969212,0.296438816,0.27357079,0.251432255,0.230084468,0.209582413,0.189974455,0.171302066,0.153599623,0.136894275,0.121205893,0.106547081,0.092923266,0.0803328498,0.068767429,0.0582120708,0.0486456418,0.0400411787,0.0323662853,0.025583528,0.0196507673,0.0145212685,0.0101430808,0.00645555741,0.00336895835,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},{0.00275074638,0.00477524515,0.00699126548,0.00947011816,0.0122441576,0.0153355947,0.0187626677,0.0225415434,0.0266870142,0.0312127707,0.0361315008,0.04145491,0.0471937052,0.0533575588,0.0599550649,0.066993692,0.0744797342,0.0824182658,0.0908130967,0.0996667332,0.108980342,0.118753719,0.128985265,0.139671964,0.150809372,0.162391604,0.174411338,0.186859813,0.199726844,0.213000841,0.226668825,0.240716465,0.25512811,0.269886836,0.284974488,0.300371741,0.316058154,0.332012241,0.34821154,0.364632687,0.381251499,0.398043054,0.414981787,0.432041576,0.449195839,0.46641763,0.483679744,0.500954812,0.518215407,0.53543415,0.552583807,0.569637402,0.586568309,0.603350364,0.619957957,0.636366131,0.65255068,0.668488237,0.684156362,0.699533624,0.714599684,0.729335364,0.743722715,0.757745082,0.771387158,0.784635031,0.79747623,0.809899758,0.821896119,0.833457339,0.844576978,0.855250134,0.865473441,0.875245054,0.884564635,0.893433321,0.901853689,0.909829718,0.917366735,0.92447136,0.931151439,0.937415982,0.943275077,0.948739819,0.953822215,0.958535102,0.962892048,0.966907259,0.970595479,0.973971891,0.977052016,0.979851615,0.982386589,0.984672882,0.986726389,0.988562863,0.99019783,0.99164651,0.99292374,0.994043905,0.995020875,0.995867954,0.996597827,0.997222527,0.997753399,0.998201077,0.998575471,0.998885756,0.999140376,0.999347044,0.999512763,0.999643838,0.999745907,0.999823966,0.999882403,0.999925037,0.999955157,0.999975561,0.999988598,0.999996217,0.999996217,0.999988598,0.999975561,0.999955157,0.999925037,0.999882403,0.999823966,0.999745907,0.999643838,0.999512763,0.999347044,0.999140376,0.998885756,0.998575471,0.998201077,0.997753399,0.997222527,0.996597827,0.995867954,0.995020875,0.994043905,0.99292374,0.99164651,0.99019783,0.988562863,0.986726389,0.984672882,0.982386589,0.979851615,0.977052016,0.973971891,0.970595479,0.966907259,0.962892048,0.958535102,0.953822215,0.948739819,0.943275077,0.937415982,0.931151439,0.92447136,0.917366735,0.909829718,0.901853689,0.893433321,0.884564635,0.875245054,0.865473441,0.855250134,0.844576978,0.833457339,0.821896119,0.809899758,0.79747623,0.784635031,0.771387158,0.757745082,0.743722715,0.729335364,0.714599684,0.699533624,0.684156362,0.668488237,0.65255068,0.636366131,0.619957957,0.603350364,0.586568309,0.569637402,0.552583807,0.53543415,0.518215407,0.500954812,0.483679744,0.46641763,0.449195839,0.432041576,0.414981787,0.398043054,0.381251499,0.364632687,0.34821154,0.332012241,0.316058154,0.300371741,0.284974488,0.269886836,0.25512811,0.240716465,0.226668825,0.213000841,0.199726844,0.186859813,0.174411338,0.162391604,0.150809372,0.139671964,0.128985265,0.118753719,0.108980342,0.0996667332,0.0908130967,0.0824182658,0.0744797342,0.066993692,0.0599550649,0.0533575588,0.0471937052,0.04145491,0.0361315008,0.0312127707,0.0266870142,0.0225415434,0.0187626677,0.0153355947,0.0122441576,0.00947011816,0.00699126548,0.00477524515,0.00275074638,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},{1.92887526e-07,1.26862312e-06,3.73694297e-06,8.64938647e-06,1.75249988e-05,3.25100409e-05,5.65499504e-05,9.35865319e-05,0.000148780979,0.000228761899,0.000341896375,0.000498580979,0.000711548259,0.00099618244,0.00137083745,0.00185714674,0.00248031598,0.00326938415,0.0042574415,0.00548178842,0.00698402245,0.00881003775,0.0110099232,0.0136377569,0.0167512707,0.0204114113,0.0246817525,0.0296278261,0.0353163108,0.0418141559,0.0491876006,0.0575011559,0.066816546,0.0771916136,0.0886792317,0.101326235,0.115172401,0.130249396,0.146579877,0.164176553,0.183041364,0.203164726,0.224524856,0.247087196,0.270803988,0.295613915,0.321442008,0.348199695,0.375785023,0.404083431,0.432968378,0.462302625,0.491939783,0.521726012,0.551502347,0.581106782,0.610377192,0.639154077,0.667283058,0.694617987,0.72102344,0.74637711,0.770571768,0.793517113,0.815140784,0.835389018,0.854227006,0.871638596,0.887625158,0.90220499,0.915411413,0.927291155,0.93790257,0.947313428,0.95559895,0.962839723,0.969119847,0.974524975,0.979140759,0.983051181,0.986337543,0.989076972,0.991342008,0.993199587,0.994710743,0.995930433,0.996907234,0.997683644,0.998296261,0.998776138,0.999149203,0.999436796,0.9996562,0.999821365,0.999943137,1.00003016,1.00008917,1.00012529,1.00014281,1.00014508,1.00013494,1.00011492,1.00008726,1.00005412,1.00001764,0.999979734,0.999942362,0.999907196,0.999876022,0.999850094,0.999830663,0.999818563,0.999814391,0.999818325,0.999830186,0.999849498,0.999875486,0.999906898,0.999942422,0.999980509,1.00001943,1.00005758,1.0000931,1.00012457,1.00015044,1.00016987,1.00018167,1.00018561,1.00018144,1.00016928,1.00014985,1.00012374,1.00009227,1.00005662,1.00001836,0.99997896,0.99993974,0.999902129,0.999867082,0.999835134,0.999806285,0.999779761,0.999753773,0.999725282,0.999689877,0.99964118,0.999570787,0.99946785,0.9993186,0.99910593,0.99880904,0.998403072,0.997858584,0.997141182,0.99621135,0.995023966,0.993528485,0.991668522,0.989382327,0.986602664,0.983257711,0.979271173,0.97456342,0.969052374,0.962654769,0.955287457,0.946869195,0.93732208,0.926573634,0.914558887,0.901221931,0.886518419,0.870416999,0.85290122,0.833971083,0.813643873,0.791955233,0.768959403,0.744728804,0.719353676,0.692940772,0.665611804,0.637501359,0.608754635,0.579524696,0.549970031,0.520251453,0.490529478,0.460961968,0.431701392,0.402893007,0.37467286,0.347166419,0.32048735,0.294736743,0.270002425,0.246358722,0.223866433,0.202572897,0.182512373,0.163706377,0.146164373,0.129884347,0.114853561,0.101049446,0.0884404257,0.076986894,0.066642195,0.057353653,0.0490636751,0.0417107828,0.0352307148,0.0295574907,0.0246244166,0.0203650557,0.0167141166,0.0136082442,0.0109867034,0.0087919496,0.00697008055,0.00547116203,0.00424943818,0.00326343346,0.00247595203,0.00185399409,0.00136859657,0.000994618051,0.00071047747,0.000497864152,0.000341428356,0.000228464938,0.00014859873,9.34789787e-05,5.64894217e-05,3.24779357e-05,1.75092246e-05,8.64240701e-06,3.73430225e-06,1.26786131e-06,1.92776696e-07,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},{1.36335345e-07,4.57767612e-07,9.97567554e-07,1.84077624e-06,3.09224833e-06,4.88094383e-06,7.36381799e-06,1.07300075e-05,1.52053863e-05,2.10575054e-05,2.86009363e-05,3.82030121e-05,5.02899893e-05,6.53535899e-05,8.39579952e-05,0.000106747175,0.000134452668,0.000167901671,0.000208025551,0.000255868625,0.000312597229,0.000379509147,0.000458043127,0.000549788703,0.000656496093,0.000780086033,0.000922659819,0.0010865092,0.001274126,0.00148821168,0.00173168664,0.00200769864,0.00231963093,0.00267111068,0.00306601473,0.00350847607,0.00400288915,0.00455391267,0.00516647473,0.00584577024,0.00659726607,0.00742669497,0.00834005512,0.00934360363,0.0104438523,0.0116475578,0.0129617099,0.0143935224,0.0159504171,0.0176400058,0.0194700807,0.0214485861,0.0235835947,0.0258832965,0.0283559617,0.0310099237,0.0338535421,0.036895182,0.0401431806,0.0436058082,0.0472912528,0.0512075722,0.0553626679,0.0597642474,0.0644197986,0.0693365484,0.0745214298,0.0799810365,0.0857216269,0.0917490497,0.098068729,0.104685634,0.111604236,0.118828513,0.126361862,0.134207115,0.142366499,0.150841609,0.159633383,0.168742076,0.178167209,0.187907621,0.19796136,0.208325714,0.218997195,0.229971498,0.241243511,0.25280726,0.264655977,0.276782036,0.289176911,0.301831275,0.314734906,0.327876776,0.341245025,0.354826927,0.368608981,0.382576853,0.396715522,0.411009163,0.425441355,0.439994961,0.45465222,0.469394863,0.484204173,0.499060899,0.51394546,0.528838038,0.543718576,0.558566749,0.57336241,0.588085234,0.602715075,0.617232025,0.631616414,0.645848989,0.659910858,0.673783839,0.68745029,0.700893283,0.714096606,0.727045,0.7397241,0.752120554,0.764221907,0.776016891,0.787495315,0.798648119,0.809467375,0.819946468,0.830079675,0.839862764,0.849292517,0.858366787,0.867084682,0.875446379,0.883453131,0.891107082,0.898411512,0.905370474,0.911989033,0.918272913,0.924228728,0.929863691,0.935185611,0.940202892,0.944924474,0.949359715,0.953518271,0.957410157,0.961045623,0.96443516,0.967589259,0.970518589,0.973233819,0.975745618,0.978064537,0.980201006,0.982165277,0.983967602,0.985617757,0.987125397,0.98849988,0.989750206,0.990885139,0.99191308,0.992841959,0.993679583,0.994433045,0.995109439,0.995715141,0.996256351,0.996738791,0.997167945,0.997548699,0.997885823,0.998183608,0.998446047,0.998676717,0.998879075,0.999056041,0.999210536,0.999344945,0.999461591,0.999562562,0.999649644,0.999724448,0.999788404,0.999842882,0.999888957,0.9999277,0.999959946,0.99998647,1.00000799,1.00002515,1.00003839,1.00004816,1.00005496,1.00005913,1.00006092,1.0000608,1.00005877,1.00005519,1.00005031,1.00004435,1.00003731,1.00002968,1.00002134,1.00001252,1.00000334,0.99999404,0.999984682,0.999975443,0.999966383,0.999957621,0.999949336,0.999941528,0.999934316,0.999927878,0.999922156,0.999917269,0.999913335,0.999910295,0.999908268,0.999907196,0.999907196,0.999908149,0.999910176,0.999913156,0.99991709,0.999921918,0.99992764,0.999934137,0.999941349,0.999949217,0.999957681,0.999966562,0.99997586,0.999985397,0.999995112,1.00000489,1.00001454,1.00002408,1.00003338,1.00004232,1.00005078,1.00005865,1.00006592,1.00007236,1.00007808,1.00008297,1.0000869,1.00008988,1.00009179,1.00009286,1.00009274,1.00009179,1.00008965,1.00008667,1.00008261,1.00007772,1.000072,1.00006545,1.00005817,1.00005031,1.00004172,1.00003278,1.00002337,1.00001371,1.0000037,0.999993682,0.99998349,0.999973357,0.999963224,0.99995321,0.999943376,0.99993366,0.999924064,0.999914587,0.999905109,0.999895573,0.999885738,0.999875546,0.999864578,0.999852657,0.999839306,0.999824166,0.999806523,0.9997859,0.999761462,0.999732316,0.999697566,0.999655962,0.999606311,0.999547124,0.999476731,0.999393344,0.999294996,0.999179363,0.999043941,0.998886049,0.998702645,0.998490512,0.998246014,0.997965276,0.997644246,0.997278214,0.996862471,0.996391773,0.995860577,0.99526298,0.994592726,0.993843138,0.993007302,0.992077827,0.991046965,0.989906728,0.988648713,0.987264156,0.985744119,0.984079301,0.982260108,0.980276704,0.978119195,0.975777209,0.973240614,0.97049886,0.967541456,0.964357972,0.960937798,0.957270682,0.953346252,0.949154437,0.944685459,0.939929724,0.934878111,0.929521918,0.923852861,0.91786325,0.911546052,0.904894829,0.897903919,0.890568554,0.882884681,0.8748492,0.866460025,0.857716084,0.848617196,0.839164436,0.829359889,0.819206893,0.80870986,0.797874272,0.786707044,0.775215983,0.763410211,0.751299858,0.73889631,0.726211846,0.713259816,0.700054646,0.686611593,0.672946632,0.65907681,0.645019531,0.630793154,0.616416335,0.601908267,0.587288618,0.572577178,0.557793975,0.542959273,0.528093219,0.513215959,0.498347521,0.483507633,0.468715757,0.453991085,0.439352304,0.424817562,0.410404533,0.396130294,0.382011205,0.368063033,0.354300767,0.340738595,0.327390045,0.314267725,0.301383466,0.288748264,0.276372313,0.264264882,0.252434462,0.24088861,0.229634136,0.218676925,0.208022103,0.197673932,0.187635899,0.177910715,0.168500274,0.159405768,0.150627658,0.142165691,0.134018898,0.12618573,0.118663922,0.111450672,0.104542568,0.0979356542,0.0916254595,0.0856070295,0.0798749477,0.0744233727,0.069246076,0.0643364564,0.0596875995,0.0552923009,0.0511430874,0.0472322591,0.0435519405,0.0400940813,0.036850512,0.0338129811,0.0309731625,0.0283227116,0.0258532818,0.0235565584,0.0214242823,0.0194482822,0.0176204946,0.0159329921,0.0143779973,0.0129479105,0.0116353221,0.0104330294,0.00933405478,0.0083316518,0.00741932075,0.00659081247,0.005840139,0.00516157458,0.00454966258,0.00399921415,0.00350530911,0.00306329457,0.00266878284,0.00231764605,0.00200601248,0.00173026032,0.00148701016,0.00127311819,0.00108566787,0.000921960978,0.000779508497,0.00065602141,0.000549400807,0.000457728049,0.000379254925,0.00031239356,0.000255706662,0.000207897814,0.000167801816,0.000134375354,0.000106687941,8.3913139e-05,6.5320055e-05,5.02652765e-05,3.81850987e-05,2.8588187e-05,2.10486251e-05,1.51993554e-05,1.07260339e-05,7.3612955e-06,4.87941543e-06,3.09137795e-06,1.84032115e-06,9.97358256e-07,4.57689993e-07,1.36315705e-07,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},{0.000995908659,0.00381905679,0.00954083261,0.019216598,0.0338271908,0.0542483167,0.0812077767,0.115217189,0.156494233,0.204936342,0.260116658,0.321281416,0.3873473,0.456949708,0.528519296,0.600352249,0.670689638,0.737804446,0.800092531,0.856140918,0.904827229,0.945368503,0.977350743,1.00080087,1.01617159,1.02431525,1.02641543,1.02385837,1.01813571,1.01079482,1.00340651,0.996783127,0.992099552,0.989220694,0.987965832,0.988127353,0.989480554,0.991784992,0.994784758,0.998211967,1.00179124,1.00524258,1.00828305,1.01063128,1.0120153,1.01218075,1.01089677,1.00796336,1.00322726,0.996605055,0.986828423,0.973125029,0.954063648,0.928386428,0.895091686,0.853476936,0.803209093,0.74447352,0.678078703,0.605397045,0.528207751,0.448655296,0.369187599,0.292456641,0.221071854,0.157314858,0.103052576,0.0598273224,0.0287183192,0.00968388493,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},{0.000614338818,0.00148958283,0.00288410496,0.00493429883,0.00777913046,0.0115491061,0.0163715562,0.0223711616,0.0296615969,0.0383566333,0.0485561099,0.0603505574,0.073822882,0.0890356369,0.106035623,0.124853486,0.145493189,0.167943556,0.192172862,0.218123826,0.245725974,0.274883943,0.305482471,0.33738738,0.370441593,0.404474963,0.439300436,0.474722545,0.510534149,0.546520192,0.58246581,0.618145266,0.653341146,0.68783673,0.721417603,0.753888797,0.785054657,0.814739745,0.842781936,0.869037674,0.893393548,0.915748356,0.93602702,0.954173114,0.970163547,0.984003644,0.995719942,1.00537427,1.01304666,1.01884338,1.02289695,1.02535529,1.02638288,1.02615553,1.02485397,1.0226646,1.0197794,1.01639169,1.01269703,1.00888519,1.00537874,1.00156378,0.998253156,0.995434664,0.993095027,0.991217091,0.989780519,0.988762494,0.988138324,0.987881941,0.987966213,0.988363051,0.989043407,0.989977232,0.991133456,0.992480044,0.993984121,0.995612147,0.997330059,0.999103363,1.00089744,1.00267709,1.00440719,1.00605229,1.00757693,1.00894586,1.01012424,1.01107797,1.01177396,1.01218036,1.01226671,1.01200406,1.01136522,1.010325,1.00886073,1.00695298,1.00458627,1.0017499,0.998438663,0.994650033,0.989575685,0.983830313,0.976999916,0.968914116,0.959403812,0.948308632,0.935486022,0.920810131,0.904173226,0.885488225,0.864686495,0.841723747,0.816587571,0.789298635,0.759917189,0.728547452,0.695328294,0.660433402,0.624066143,0.586446142,0.547816066,0.508449976,0.468636143,0.428678989,0.388903272,0.349643142,0.311236082,0.274012847,0.238284723,0.204337983,0.172430586,0.142793979,0.115638588,0.0911582177,0.0695274904,0.0508897541,0.0353343019,0.0228668041,0.0133800502,0.00664050653,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},{0.000508722763,0.000995908659,0.00168220801,0.00260969726,0.00381905679,0.00534931959,0.00724390638,0.00954083261,0.0122763764,0.0154895024,0.019216598,0.0234936962,0.0283519958,0.0338271908,0.0399493954,0.0467477524,0.0542483167,0.0624777078,0.0714583592,0.0812077767,0.0917440041,0.103076496,0.115217189,0.128166571,0.141926438,0.156494233,0.171859319,0.188013425,0.204936342,0.222612306,0.241015124,0.260116658,0.279887101,0.300288014,0.321281416,0.342820846,0.364859656,0.3873473,0.410229495,0.433449453,0.456949708,0.48066964,0.504547382,0.528519296,0.55251961,0.576487245,0.600352249,0.624050987,0.647518259,0.670689638,0.693502907,0.715892752,0.737804446,0.759178724,0.779958661,0.800092531,0.819531865,0.838228896,0.856140918,0.873231695,0.889470202,0.904827229,0.919273638,0.932794041,0.945368503,0.956988393,0.967648642,0.977350743,0.986102783,0.993912241,1.00080087,1.00678781,1.01190127,1.01617159,1.01963641,1.02233661,1.02431525,1.0256213,1.02630344,1.02641543,1.02600793,1.02513744,1.02385837,1.02222694,1.02030055,1.01813571,1.01579215,1.01332597,1.01079482,1.00826513,1.00604687,1.00340651,1.0009774,0.998770454,0.996783127,0.995011891,0.993452397,0.992099552,0.9909476,0.989990243,0.989220694,0.988631804,0.98821609,0.987965832,0.987873077,0.987929693,0.988127353,0.988457554,0.988911587,0.989480554,0.990155346,0.990926656,0.991784992,0.992720684,0.993723921,0.994784758,0.995893149,0.997038957,0.998211967,0.999402034,1.00059832,1.00179124,1.00296984,1.00412379,1.00524258,1.00631572,1.00733269,1.00828305,1.00915642,1.00994254,1.01063128,1.01121274,1.01167723,1.0120153,1.01221778,1.01227579,1.01218075,1.01192443,1.01149892,1.01089677,1.01011097,1.00913509,1.00796336,1.00659076,1.00501312,1.00322726,1.00123106,0.999023556,0.996605055,0.993989471,0.99045392,0.986828423,0.982771674,0.978220667,0.973125029,0.967432353,0.961094704,0.954063648,0.946295299,0.937748911,0.928386428,0.918176261,0.907086156,0.895091686,0.882169624,0.868302529,0.853476936,0.837685201,0.820927526,0.803209093,0.784545048,0.764955485,0.74447352,0.723134807,0.700986056,0.678078703,0.654468651,0.630221215,0.605397045,0.580071577,0.554312928,0.528207751,0.501836972,0.475290296,0.448655296,0.422028112,0.395505797,0.369187599,0.343173285,0.317563302,0.292456641,0.267946378,0.244123133,0.221071854,0.198871915,0.177596763,0.157314858,0.138090336,0.11998375,0.103052576,0.0873508501,0.0729281158,0.0598273224,0.0480817884,0.037711353,0.0287183192,0.0210835203,0.0147628941,0.00968388493,0.00564216879,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},{0.000459588635,0.000791932361,0.00122792717,0.00178365327,0.00247954941,0.00332979945,0.00435353548,0.00556496516,0.00698610836,0.00862988232,0.0105134341,0.0126508264,0.0150609045,0.0177559123,0.0207547598,0.0240681372,0.0277120786,0.0316993325,0.0360460964,0.0407612864,0.0458603812,0.0513513668,0.0572478022,0.0635585474,0.0702945073,0.077459872,0.0850663537,0.0931164162,0.101616296,0.110569081,0.119978929,0.129841729,0.14016238,0.150937156,0.16216323,0.173835412,0.185952036,0.198500883,0.211477855,0.224873256,0.238676395,0.252872945,0.267454701,0.282403147,0.297705015,0.313341912,0.32929767,0.345549016,0.362079505,0.378864867,0.395885158,0.413114379,0.43053083,0.448107672,0.465822779,0.483646639,0.501556485,0.519522807,0.537519704,0.555518384,0.573495781,0.591418665,0.609262289,0.626998116,0.644600201,0.662038458,0.679290655,0.696325643,0.713119439,0.729646991,0.745886459,0.761809472,0.777395845,0.792620875,0.807466639,0.821910156,0.835934316,0.849518047,0.862648584,0.875308323,0.887488472,0.899173772,0.910352743,0.921014413,0.931155619,0.940764474,0.949838224,0.95837326,0.966369041,0.973823562,0.980744251,0.987129797,0.992987227,0.99832414,1.00315076,1.00747371,1.01130915,1.01466668,1.01756334,1.02001468,1.02203987,1.02365426,1.02488162,1.02573929,1.02625071,1.02643667,1.02632086,1.02592292,1.02526998,1.02438219,1.02328494,1.02200083,1.02055597,1.01897139,1.01727518,1.01548913,1.01363936,1.01174775,1.00984084,1.00793976,1.0064074,1.00437483,1.00246981,1.00068907,0.9990346,0.99750249,0.996094155,0.994805124,0.993636273,0.992582654,0.991644701,0.990817076,0.990099845,0.989487369,0.988979432,0.988570179,0.988259191,0.988040442,0.987913369,0.98787181,0.987915076,0.988036894,0.988236456,0.988507369,0.988848709,0.989253949,0.989722041,0.990246329,0.990825634,0.991453181,0.992127681,0.99284225,0.99359551,0.994380481,0.995195724,0.996034188,0.996894383,0.997769201,0.998657113,0.999550974,1.00044923,1.00134469,1.00223579,1.00311529,1.0039816,1.00482747,1.00565128,1.00644577,1.00720935,1.00793478,1.0086205,1.00925931,1.00984974,1.01038469,1.01086278,1.01127704,1.01162625,1.01190357,1.01210795,1.01223276,1.01227709,1.01223451,1.01210432,1.01188029,1.01156197,1.01114337,1.01062432,1.00999915,1.00926803,1.0084257,1.00747277,1.00640448,1.005222,1.00392116,1.00250376,1.00096633,0.999311401,0.99753627,0.995644231,0.993633392,0.990867748,0.988232633,0.985362057,0.982230509,0.978818585,0.975102633,0.971063185,0.966675967,0.961924219,0.956784199,0.95123943,0.945270024,0.93886157,0.931994644,0.924659203,0.91683834,0.908521803,0.899696701,0.890356205,0.880487793,0.870088421,0.859149213,0.847668639,0.835642897,0.823075389,0.80996493,0.796320451,0.782146054,0.767454182,0.752256346,0.736570205,0.720409055,0.703797511,0.686754281,0.669304189,0.651471096,0.633285483,0.614768539,0.595955378,0.576873796,0.557553429,0.538032014,0.518345403,0.498525942,0.478615607,0.458647304,0.438664366,0.418704689,0.398812306,0.379026292,0.359391483,0.339947413,0.320739242,0.301806111,0.283190595,0.264928837,0.247060855,0.229620112,0.212643372,0.196160182,0.18020352,0.164799688,0.149978755,0.135764352,0.122184253,0.109260199,0.0970178845,0.0854768028,0.0746597638,0.0645825432,0.0552628119,0.0467097698,0.0389324443,0.0319297601,0.0256981064,0.0202225927,0.0154831778,0.0114492491,0.00807648266,0.00530004408,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},{0.00040901065,0.000614338818,0.000857175988,0.00114701506,0.00148958283,0.00188977038,0.0023530008,0.00288410496,0.00348821379,0.00417004043,0.00493429883,0.00578707651,0.00673381174,0.00777913046,0.00892704496,0.0101820289,0.0115491061,0.0130334922,0.0146395129,0.0163715562,0.0182345538,0.0202330949,0.0223711616,0.0246523735,0.0270810194,0.0296615969,0.0323988485,0.0352960177,0.0383566333,0.0415844793,0.0449832242,0.0485561099,0.0523059648,0.0562362458,0.0603505574,0.0646518632,0.0691419575,0.073822882,0.0786970933,0.0837676164,0.0890356369,0.0945019924,0.100168019,0.106035623,0.112106022,0.118378855,0.124853486,0.131530285,0.138410308,0.145493189,0.152777295,0.160260884,0.167943556,0.175824562,0.183902012,0.192172862,0.20063443,0.209285388,0.218123826,0.227146226,0.236347921,0.245725974,0.255277155,0.264998109,0.274883943,0.284929644,0.295130651,0.305482471,0.315979964,0.326616979,0.33738738,0.348285592,0.359305769,0.370441593,0.381686239,0.393032978,0.404474963,0.41600511,0.42761596,0.439300436,0.451051633,0.462861605,0.474722545,0.486626671,0.498566451,0.510534149,0.522521279,0.534519051,0.546520192,0.558517277,0.570502154,0.58246581,0.594399172,0.606294818,0.618145266,0.629942202,0.641676874,0.653341146,0.664927754,0.67642927,0.68783673,0.699142147,0.710337961,0.721417603,0.73237461,0.743200803,0.753888797,0.76443155,0.774822315,0.785054657,0.795122352,0.805019386,0.814739745,0.824277441,0.833626711,0.842781936,0.851738619,0.860492087,0.869037674,0.877372045,0.885492794,0.893393548,0.901072709,0.90852494,0.915748356,0.922741384,0.929501747,0.93602702,0.942314305,0.948362979,0.954173114,0.959743838,0.965073839,0.970163547,0.975014336,0.979627719,0.984003644,0.988142677,0.992047045,0.995719942,0.999164081,1.00238131,1.00537427,1.00814672,1.01070312,1.01304666,1.01518127,1.01711164,1.01884338,1.02038171,1.0217311,1.02289695,1.02388546,1.02470297,1.02535529,1.02584824,1.02618837,1.02638288,1.0264381,1.02636013,1.02615553,1.02583146,1.02539543,1.02485397,1.02421348,1.02348118,1.0226646,1.0217709,1.02080692,1.0197794,1.018696,1.01756442,1.01639169,1.01518492,1.01395084,1.01269703,1.01143075,1.01015835,1.00888519,1.00759272,1.0068056,1.00537874,1.00404905,1.00277836,1.00156378,1.00040492,0.999301484,0.998253156,0.997259546,0.996320213,0.995434664,0.994602354,0.993822688,0.993095027,0.992418692,0.991792966,0.991217091,0.990690276,0.9902117,0.989780519,0.98939586,0.989056824,0.988762494,0.988511936,0.988304203,0.988138324,0.988013316,0.98792819,0.987881941,0.987873551,0.987901987,0.987966213,0.988065178,0.988197816,0.988363051,0.988559796,0.988786953,0.989043407,0.989328032,0.98963969,0.989977232,0.990339493,0.990725297,0.991133456,0.991562775,0.992012044,0.992480044,0.992965548,0.993467321,0.993984121,0.994514697,0.995057793,0.995612147,0.996176492,0.996749554,0.997330059,0.997916725,0.998508264,0.999103363,0.999700348,1.00029974,1.00089744,1.00149396,1.00208762,1.00267709,1.00326105,1.00383818,1.00440719,1.00496675,1.00551556,1.00605229,1.00657564,1.00708429,1.00757693,1.00805228,1.00850902,1.00894586,1.00936153,1.00975474,1.01012424,1.01046877,1.01078709,1.01107797,1.01134021,1.0115726,1.01177396,1.01194314,1.01207898,1.01218036,1.01224617,1.01227531,1.01226671,1.01221932,1.01213211,1.01200406,1.01183421,1.01162157,1.01136522,1.01106425,1.01071779,1.010325,1.00988506,1.00939721,1.00886073,1.00827495,1.00763922,1.00695298,1.00621571,1.00542694,1.00458627,1.00369338,1.00274798,1.0017499,1.000699,0.999595249,0.998438663,0.997229342,0.995967277,0.994650033,0.9932404,0.991251152,0.989575685,0.987771321,0.985857748,0.983830313,0.981682263,0.979407449,0.976999916,0.974452836,0.97175975,0.968914116,0.965910162,0.962742183,0.959403812,0.955888998,0.952192243,0.948308632,0.944233254,0.939960724,0.935486022,0.930805297,0.925914697,0.920810131,0.91548736,0.909942607,0.904173226,0.898176373,0.891949024,0.885488225,0.878791944,0.871858584,0.864686495,0.857273814,0.849619586,0.841723747,0.833586272,0.825207443,0.816587571,0.807728037,0.798631159,0.789298635,0.779733095,0.769937953,0.759917189,0.749675842,0.739217684,0.728547452,0.717671448,0.706596231,0.695328294,0.683873906,0.672239531,0.660433402,0.64846436,0.6363395,0.624066143,0.611653033,0.599109864,0.586446142,0.573669485,0.560788103,0.547816066,0.534761979,0.521636515,0.508449976,0.495213509,0.481938756,0.468636143,0.455317077,0.441993995,0.428678989,0.415383779,0.402121106,0.388903272,0.375742544,0.362651518,0.349643142,0.336729082,0.323922808,0.311236082,0.298680794,0.286269467,0.274012847,0.261922833,0.250009844,0.238284723,0.226757849,0.2154391,0.204337983,0.193463677,0.182825032,0.172430586,0.162288635,0.152407188,0.142793979,0.133456585,0.124402392,0.115638588,0.107172155,0.0990098587,0.0911582177,0.0836234486,0.0764114037,0.0695274904,0.0629765645,0.0567628424,0.0508897541,0.045359833,0.0401745731,0.0353343019,0.0308380606,0.0266835542,0.0228668041,0.0193823634,0.0162231272,0.0133800502,0.010842186,0.00859675398,0.00664050653,0.00517270311,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},{9.75247545e-08,6.41356849e-07,1.88872264e-06,4.37003746e-06,8.85053487e-06,1.64097619e-05,2.85265469e-05,4.71757776e-05,7.49369574e-05,0.000115113864,0.000171864056,0.000250336452,0.000356814737,0.000498863636,0.00068547501,0.000927209505,0.00123633002,0.0016269217,0.00211499492,0.00271856366,0.00345769688,0.004354537,0.00543327769,0.006720101,0.00824306626,0.0100319488,0.012118022,0.014533788,0.0173126478,0.0204885192,0.0240953956,0.028166851,0.0327355117,0.037832465,0.0434866548,0.0497242436,0.0565679595,0.0640364513,0.0721436515,0.0808981732,0.0903027356,0.100353681,0.11104054,0.122345708,0.134244218,0.14670366,0.159684196,0.173138753,0.187013358,0.201247633,0.2157754,0.230525494,0.245422661,0.260388613,0.27534306,0.290205121,0.304894298,0.319332004,0.333442599,0.347154707,0.360402405,0.373126328,0.385274231,0.396802038,0.407674283,0.417864561,0.427355647,0.436139554,0.444217294,0.451598674,0.458301634,0.464351624,0.469781011,0.474628091,0.478936344,0.482753456,0.486130476,0.48912096,0.491780102,0.49416405,0.496329218,0.498331696,0.500226736,0.502068341,0.503908992,0.505799294,0.507787943,0.509921193,0.51224333,0.514795899,0.517618179,0.520746589,0.524214983,0.528054178,0.532292068,0.536953092,0.542058468,0.547625661,0.553668439,0.5601964,0.567215025,0.574725628,0.582724869,0.591205239,0.600154579,0.609556615,0.619390607,0.629631937,0.640252173,0.651219368,0.662498534,0.674051821,0.685839176,0.697818637,0.70994693,0.72217989,0.734472811,0.74678117,0.759061038,0.771269321,0.783364296,0.795306087,0.807056785,0.818580806,0.82984519,0.840819776,0.851477146,0.861792982,0.871745944,0.881317794,0.890493214,0.899259806,0.907608211,0.915531754,0.923026323,0.930090547,0.936725318,0.942933977,0.948721945,0.954096615,0.959067523,0.963645637,0.967843831,0.97167629,0.975158513,0.978307128,0.98113966,0.983674467,0.985930443,0.987926722,0.989682734,0.991217852,0.992551088,0.993701279,0.994686544,0.995524466,0.996231675,0.996824026,0.997316301,0.997722328,0.998054802,0.998325348,0.998544455,0.99872154,0.998864949,0.998981953,0.999078929,0.999161184,0.999233246,0.999298692,0.999360621,0.99942112,0.999481916,0.999544203,0.999608576,0.999675393,0.999744534,0.999815881,0.999888837,0.999962866,1.00003707,1.00011098,1.00018346,1.0002538,1.00032115,1.00038469,1.00044382,1.0004977,1.00054598,1.00058782,1.00062299,1.00065112,1.00067186,1.00068521,1.00069082,1.00068903,1.00067961,1.0006628,1.00063896,1.00060833,1.00057113,1.0005281,1.00047958,1.00042605,1.00036812,1.00030637,1.00024164,1.00017428,1.00010526,1.00003517,0.999964774,0.999894679,0.999825716,0.999758482,0.999693692,0.999632061,0.999574184,0.999520719,0.999472201,0.999429166,0.999392092,0.999361455,0.999337614,0.999320924,0.999311507,0.999309599,0.999315262,0.999328554,0.999349296,0.99937737,0.999412537,0.999454379,0.99950248,0.999556363,0.999615431,0.999678969,0.999746263,0.999816597,0.999889076,0.999962866,1.00003707,1.00011098,1.00018346,1.0002538,1.00032115,1.00038469,1.00044382,1.0004977,1.00054598,1.00058782,1.00062299,1.00065112,1.00067186,1.00068521,1.00069082,1.00068903,1.00067961,1.0006628,1.00063896,1.00060833,1.00057113,1.0005281,1.00047958,1.00042605,1.00036812,1.00030637,1.00024164,1.00017428,1.00010526,1.00003517,0.999964774,0.999894679,0.999825716,0.999758482,0.999693692,0.999632061,0.999574184,0.999520719,0.999472201,0.999429166,0.999392092,0.999361455,0.999337614,0.999320924,0.999311507,0.999309599,0.999315262,0.999328554,0.999349296,0.99937737,0.999412537,0.999454379,0.99950248,0.999556363,0.999615431,0.999678969,0.999746263,0.999816597,0.999889076,0.999962866,1.00003707,1.00011075,1.00018275,1.00025201,1.00031757,1.00037789,1.00043166,1.00047719,1.0005126,1.00053585,1.00054419,1.00053477,1.00050414,1.00044823,1.00036228,1.00024092,1.00007784,0.99986589,0.999597013,0.999261975,0.998850465,0.998351038,0.997750819,0.997035682,0.996189833,0.995196044,0.994035423,0.992687285,0.991129041,0.989336133,0.987281919,0.984937787,0.982272744,0.979253709,0.975845337,0.972010076,0.967708528,0.962899387,0.957539737,0.951585472,0.944991708,0.937713265,0.929705381,0.920924187,0.911327481,0.900875807,0.889532745,0.877266228,0.864049077,0.849859893,0.834683776,0.818513036,0.801347792,0.783196509,0.764076352,0.744013488,0.723043203,0.701209962,0.67856735,0.655177712,0.631111801,0.606448233,0.58127296,0.555678487,0.529762745,0.503628492,0.477382004,0.451132149,0.424988985,0.399062574,0.373461813,0.348293066,0.323658854,0.299656719,0.276377857,0.253906131,0.232316986,0.211676583,0.19204095,0.173455566,0.155954808,0.139561892,0.124288827,0.110136725,0.0970961973,0.0851479918,0.0742638558,0.0644074306,0.0555353425,0.0475983508,0.0405424982,0.0343103148,0.0288419761,0.0240764078,0.0199523065,0.0164090749,0.0133876354,0.0108311241,0.00868547149,0.00689984858,0.00542699778,0.00422345474,0.00324966502,0.00247000973,0.00185274973,0.00136990519,0.000997077208,0.000713227608,0.000500426511,0.000343578606,0.000230138365,0.000149821601,9.43217892e-05,5.70367956e-05,3.28110509e-05,1.76969679e-05,8.73827867e-06,3.77677043e-06,1.28252009e-06,1.95021386e-07,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},{6.89548827e-08,2.31516253e-07,5.04477669e-07,9.30795125e-07,1.56340695e-06,2.4673875e-06,3.72189174e-06,5.42224188e-06,7.68219343e-06,1.06363877e-05,1.44429905e-05,1.92865264e-05,2.53808976e-05,3.29725954e-05,4.23441015e-05,5.38174427e-05,6.77579446e-05,8.45781324e-05,0.000104741775,0.000128768093,0.000157236034,0.000190788676,0.000230137754,0.000276068167,0.000329442613,0.000391206064,0.000462390453,0.000544119219,0.000637611491,0.000744186866,0.000865269103,0.0010023904,0.00115719519,0.00133144355,0.00152701419,0.00174590782,0.00199024938,0.00226228987,0.00256440835,0.00289911311,0.00326904119,0.00367696048,0.00412576646,0.00461848313,0.00515825953,0.00574836833,0.00639220094,0.00709326472,0.00785517693,0.00868165866,0.00957652833,0.0105436966,0.0115871523,0.0127109587,0.0139192408,0.0152161736,0.0166059695,0.0180928707,0.0196811259,0.0213749874,0.0231786855,0.0250964165,0.0271323286,0.029290501,0.0315749235,0.0339894816,0.0365379415,0.0392239206,0.042050872,0.0450220704,0.0481405817,0.0514092445,0.0548306555,0.0584071539,0.0621407814,0.0660332814,0.0700860694,0.0743002295,0.0786764771,0.0832151473,0.0879162028,0.0927791744,0.0978031904,0.102986939,0.108328678,0.1138262,0.119476855,0.125277504,0.131224588,0.137314022,0.143541321,0.149901465,0.156389058,0.162998185,0.169722542,0.17655538,0.183489516,0.190517426,0.19763118,0.204822496,0.212082773,0.219403118,0.226774365,0.234187096,0.241631702,0.249098375,0.256577194,0.264058143,0.271531105,0.278985947,0.286412567,0.29380095,0.301141053,0.308423132,0.315637439,0.322774589,0.329825372,0.336780816,0.3436324,0.350371778,0.356991231,0.36348325,0.36984089,0.376057625,0.382127434,0.388044775,0.393804729,0.399402857,0.404835284,0.410098761,0.415190488,0.420108408,0.424850911,0.429417044,0.43380636,0.438019037,0.442055762,0.445917755,0.449606776,0.453125089,0.456475437,0.459661037,0.462685496,0.465552896,0.468267679,0.470834643,0.473258942,0.475546002,0.477701575,0.47973159,0.481642276,0.483440012,0.485131353,0.486723036,0.488221824,0.489634633,0.490968436,0.492230296,0.493427187,0.494566232,0.495654404,0.496698737,0.497706175,0.498683631,0.499637932,0.50057584,0.501503944,0.50242883,0.503356874,0.504294455,0.505247772,0.506222844,0.507225573,0.50826174,0.509337008,0.51045686,0.511626601,0.512851536,0.514136553,0.515486538,0.516906321,0.518400311,0.51997292,0.52162832,0.523370624,0.525203526,0.527130723,0.529155731,0.53128171,0.533511758,0.535848677,0.53829509,0.540853441,0.543525815,0.54631424,0.549220264,0.552245498,0.555391014,0.558657765,0.562046468,0.56555748,0.569190919,0.572946727,0.576824427,0.580823362,0.584942579,0.589180827,0.593536615,0.598008096,0.602593303,0.607289851,0.612095237,0.61700654,0.622020781,0.627134562,0.632344365,0.637646437,0.643036783,0.648511291,0.65406549,0.65969497,0.665394902,0.67116046,0.676986754,0.68286854,0.688800693,0.694777906,0.700794756,0.70684582,0.712925553,0.719028473,0.725149035,0.731281698,0.737420917,0.743561149,0.74969697,0.755823016,0.761933863,0.768024206,0.774088979,0.780123055,0.786121488,0.792079389,0.79799211,0.803855121,0.809663892,0.81541431,0.821102202,0.826723635,0.832274854,0.837752342,0.843152702,0.848472714,0.85370928,0.858859718,0.863921225,0.868891478,0.873768151,0.878549099,0.883232594,0.887816727,0.892300129,0.896681368,0.900959313,0.90513289,0.909201384,0.913164079,0.91702044,0.920770228,0.924413145,0.92794925,0.931378603,0.934701502,0.937918305,0.941029668,0.944036126,0.946938515,0.949737847,0.952435017,0.955031335,0.957527936,0.959926248,0.962227762,0.964434028,0.966546714,0.96856761,0.970498502,0.972341299,0.974098027,0.975770652,0.977361381,0.978872299,0.980305672,0.981663704,0.98294872,0.984162986,0.985308945,0.986388862,0.987405181,0.988360226,0.989256442,0.990096152,0.990881741,0.991615593,0.992299914,0.992937148,0.993529499,0.994079232,0.994588435,0.995059371,0.995494127,0.99589473,0.996263146,0.996601343,0.996911168,0.997194529,0.997453094,0.997688591,0.997902572,0.998096704,0.998272479,0.998431206,0.998574317,0.998703122,0.998818815,0.998922586,0.99901545,0.99909848,0.999172688,0.999238908,0.999298036,0.999350786,0.999397993,0.999440193,0.999478102,0.999512255,0.99954313,0.999571264,0.999597073,0.999620855,0.999643087,0.999663949,0.999683797,0.999702871,0.999721289,0.99973923,0.999756932,0.999774456,0.99979192,0.999809384,0.999826908,0.999844551,0.999862373,0.999880314,0.999898374,0.999916673,0.999935031,0.999953508,0.999972105,0.999990702,1.0000093,1.00002778,1.00004625,1.00006461,1.00008273,1.00010061,1.00011826,1.00013554,1.00015235,1.0001688,1.00018466,1.00020003,1.00021482,1.000229,1.00024247,1.00025523,1.00026727,1.00027859,1.00028908,1.00029874,1.00030744,1.00031543,1.00032246,1.00032854,1.00033379,1.00033808,1.0003413,1.00034368,1.00034511,1.00034559,1.00034511,1.00034368,1.00034142,1.00033808,1.00033391,1.00032878,1.00032282,1.00031602,1.00030828,1.00029981,1.00029051,1.0002805,1.00026977,1.00025833,1.00024617,1.00023329,1.00021994,1.00020599,1.00019157,1.00017655,1.00016105,1.00014532,1.0001291,1.00011253,1.00009573,1.00007868,1.00006139,1.00004399,1.00002646,1.00000882,0.999991179,0.999973595,0.999956071,0.999938667,0.999921381,0.999904335,0.999887526,0.999870956,0.999854743,0.999838948,0.999823511,0.99980855,0.999794066,0.999780118,0.999766707,0.999753952,0.999741793,0.999730289,0.99971956,0.999709487,0.999700248,0.999691784,0.999684095,0.9996773,0.99967128,0.999666214,0.999662042,0.999658763,0.999656379,0.999655008,0.999654531,0.999654949,0.999656379,0.999658763,0.999662101,0.999666333,0.999671519,0.999677658,0.999684691,0.999692619,0.999701381,0.999711037,0.999721527,0.999732792,0.999744833,0.999757588,0.999771118,0.999785244,0.999800026,0.999815404,0.999831259,0.999847651,0.999864519,0.999881744,0.999899328,0.999917269,0.999935389,0.999953687,0.999972165,0.999990702,1.0000093,1.00002778,1.00004625,1.00006461,1.00008273,1.00010061,1.00011826,1.00013554,1.00015235,1.0001688,1.00018466,1.00020003,1.00021482,1.000229,1.00024247,1.00025523,1.00026727,1.00027859,1.00028908,1.00029874,1.00030744,1.00031543,1.00032246,1.00032854,1.00033379,1.00033808,1.0003413,1.00034368,1.00034511,1.00034559,1.00034511,1.00034368,1.00034142,1.00033808,1.00033391,1.00032878,1.00032282,1.00031602,1.00030828,1.00029981,1.00029051,1.0002805,1.00026977,1.00025833,1.00024617,1.00023329,1.00021994,1.00020599,1.00019157,1.00017655,1.00016105,1.00014532,1.0001291,1.00011253,1.00009573,1.00007868,1.00006139,1.00004399,1.00002646,1.00000882,0.999991179,0.999973595,0.999956071,0.999938667,0.999921381,0.999904335,0.999887526,0.999870956,0.999854743,0.999838948,0.999823511,0.99980855,0.999794066,0.999780118,0.999766707,0.999753952,0.999741793,0.999730289,0.99971956,0.999709487,0.999700248,0.999691784,0.999684095,0.9996773,0.99967128,0.999666214,0.999662042,0.999658763,0.999656379,0.999655008,0.999654531,0.999654949,0.999656379,0.999658763,0.999662101,0.999666333,0.999671519,0.999677658,0.999684691,0.999692619,0.999701381,0.999711037,0.999721527,0.999732792,0.999744833,0.999757588,0.999771118,0.999785244,0.999800026,0.999815404,0.999831259,0.999847651,0.999864519,0.999881744,0.999899328,0.999917269,0.999935389,0.999953687,0.999972165,0.999990702,1.0000093,1.00002778,1.00004613,1.00006425,1.00008214,1.00009966,1.00011683,1.0001334,1.00014925,1.00016439,1.00017869,1.00019193,1.00020397,1.00021482,1.00022411,1.00023162,1.00023735,1.0002408,1.00024199,1.00024033,1.00023568,1.00022769,1.00021589,1.00020003,1.00017941,1.00015378,1.00012243,1.00008476,1.00004041,0.999988317,0.999928057,0.999858677,0.999779403,0.999689281,0.999587417,0.999472737,0.99934411,0.999200404,0.999040425,0.998862803,0.998666167,0.998449087,0.998209953,0.997947097,0.997658968,0.99734354,0.996999085,0.996623516,0.996214747,0.995770633,0.995288789,0.994766831,0.994202256,0.993592501,0.992934704,0.992226064,0.991463542,0.990644097,0.989764392,0.988821149,0.98781085,0.986729801,0.985574305,0.98434037,0.983024001,0.981621027,0.980127096,0.978537738,0.976848423,0.975054383,0.97315073,0.971132576,0.968994796,0.966732204,0.964339435,0.961811244,0.959142029,0.956326306,0.953358531,0.950233042,0.946944118,0.943486214,0.939853668,0.936040819,0.932042122,0.927852154,0.923465431,0.918876767,0.914081097,0.909073353,0.903848886,0.898403168,0.892731845,0.886831045,0.880696952,0.874326289,0.867715955,0.860863328,0.853766203,0.846422672,0.838831365,0.830991328,0.822902203,0.81456393,0.805977046,0.797142744,0.788062632,0.778738797,0.76917398,0.759371519,0.749335289,0.73906976,0.728579819,0.71787113,0.70694977,0.695822597,0.684496701,0.67298007,0.66128087,0.649408042,0.637370944,0.62517941,0.612843752,0.600374699,0.587783396,0.575081468,0.562280834,0.549393654,0.536432624,0.523410499,0.510340393,0.497235566,0.484109521,0.470975846,0.457848251,0.444740474,0.431666315,0.418639511,0.405673832,0.392782807,0.379979968,0.367278606,0.354691803,0.342232376,0.329912812,0.317745358,0.305741847,0.293913603,0.282271683,0.270826548,0.259588152,0.248565957,0.237768814,0.227205008,0.216882199,0.20680739,0.196986943,0.187426537,0.178131178,0.169105172,0.160352126,0.151874945,0.143675804,0.135756254,0.12811707,0.120758407,0.113679729,0.106879868,0.100357018,0.0941087753,0.088132143,0.0824235976,0.0769790635,0.0717940032,0.0668634027,0.0621818379,0.0577434972,0.0535422154,0.0495715141,0.0458246432,0.0422946103,0.0389742292,0.0358561426,0.0329328589,0.0301968064,0.027640339,0.0252557844,0.023035476,0.0209717732,0.0190570969,0.01728395,0.0156449396,0.0141328052,0.0127404351,0.0114608845,0.0102873892,0.00921338331,0.00823251065,0.0073386333,0.00652584061,0.00578845851,0.00512105133,0.00451842742,0.00397564145,0.00348799396,0.00305103138,0.00266054412,0.00231256452,0.00200336217,0.00172943878,0.00148752402,0.00127456791,0.00108773448,0.000924394117,0.000782115792,0.000658658682,0.000551963516,0.0004601439,0.000381477352,0.000314396282,0.00025747894,0.000209440448,0.000169123945,0.000135491777,0.000107617016,8.46750627e-05,6.59356156e-05,5.07548866e-05,3.85681342e-05,2.88825358e-05,2.1270409e-05,1.53627971e-05,1.0843446e-05,7.44312956e-06,4.93438165e-06,3.12659085e-06,1.86147406e-06,1.00890213e-06,4.6301281e-07,1.37904777e-07,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},{0.00295060859,0.00717541132,0.0137695374,0.0230953556,0.035403623,0.0508289304,0.0694696293,0.0913884278,0.116604575,0.145073546,0.176711174,0.211342953,0.248768614,0.288701102,0.330823871,0.374814544,0.420308013,0.466904918,0.514185341,0.561710041,0.609026346,0.655671016,0.701218384,0.745240679,0.787369206,0.827223833,0.864513675,0.898977415,0.930407518,0.958599937,0.983447719,1.00488283,1.02285381,1.03740495,1.04859791,1.05656184,1.06149371,1.06362578,1.06325973,1.06074505,1.0564359,1.050695,1.04392435,1.03647725,1.02872867,1.02106486,1.01400658,1.00727455,1.0017225,0.997309592,0.993985158,0.991683335,0.990325325,0.989822613,0.990074734,0.990975314,0.992412851,0.994273149,0.996439157,0.998791616,1.00120985,1.00357357,1.00575984,1.00764515,1.00910687,1.01002476,1.01028203,1.00976919,1.00838641,1.00605124,1.00269767,0.998280464,0.992777987,0.986186892,0.977634164,0.96744727,0.955129725,0.940389877,0.92295928,0.90260735,0.879202689,0.85264175,0.822881272,0.789971715,0.754030328,0.715255742,0.673936911,0.630414716,0.585078858,0.538398518,0.490833753,0.442885823,0.395091024,0.348004343,0.30219671,0.258227431,0.216641416,0.177922122,0.142480547,0.110652194,0.0826995967,0.0588334516,0.0392030848,0.0238629107,0.0126976223,0.00535665361,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},{0.00220824874,0.0038101442,0.00591552473,0.00858361457,0.0118759723,0.0158335301,0.0204918652,0.0258883593,0.0320415894,0.0389616721,0.0466742169,0.0551849337,0.0645038384,0.0746411071,0.0856000162,0.0973846703,0.109993603,0.123419277,0.137655457,0.152690437,0.168513363,0.185093105,0.202410419,0.220450365,0.239167941,0.258526168,0.278498539,0.299038432,0.320104862,0.341658622,0.363660034,0.386062695,0.408815272,0.431871046,0.455176988,0.478676593,0.502324813,0.526060916,0.549831283,0.573576883,0.597241338,0.620770242,0.644099662,0.667176382,0.689958854,0.71237998,0.734396372,0.755966688,0.777036981,0.797558114,0.817490856,0.83679695,0.85544731,0.873400798,0.890635719,0.90712877,0.922848784,0.937763323,0.951860206,0.9651306,0.977556541,0.989126209,0.999846919,1.00970073,1.01868229,1.02681455,1.03408981,1.04051196,1.04610837,1.05088565,1.05486289,1.05807221,1.06053414,1.06227662,1.06333815,1.06375557,1.06356632,1.06282156,1.06155996,1.05981709,1.05765876,1.05512006,1.05223985,1.04908779,1.0456986,1.04210831,1.03838099,1.03455276,1.030672,1.02679167,1.02295558,1.01920733,1.01587289,1.01221017,1.00884559,1.00577851,1.00300262,1.0005146,0.998309229,0.996378601,0.994718132,0.993316216,0.992166957,0.991258603,0.990581104,0.990123118,0.989873712,0.989818707,0.9899468,0.990243175,0.990695564,0.99128854,0.992009469,0.992842693,0.993775067,0.994790398,0.995875534,0.997014367,0.998192871,0.999394506,1.00060586,1.0018104,1.00299457,1.00414155,1.00523688,1.00626393,1.0072089,1.00805489,1.00878802,1.00939182,1.00985296,1.01015529,1.01028602,1.01022988,1.00997541,1.00950846,1.00881848,1.00789488,1.00672876,1.00530991,1.00363456,1.00169363,0.999485663,0.99700637,0.994254687,0.991231967,0.987937115,0.984375125,0.979890963,0.975269879,0.970180498,0.964580027,0.958425534,0.951684014,0.944320232,0.936290624,0.927580507,0.918153414,0.907976524,0.897050058,0.88535136,0.872857927,0.859579819,0.845502615,0.830619943,0.814946648,0.798489378,0.78126245,0.763291769,0.744590843,0.725199287,0.705153668,0.684490545,0.66324521,0.641477162,0.619235334,0.596559133,0.573519989,0.550173851,0.526568538,0.502781159,0.478860889,0.454877894,0.430898123,0.406993964,0.383234031,0.359680098,0.3364081,0.313496418,0.291010565,0.269019585,0.247584348,0.226788433,0.206677771,0.187310343,0.168739644,0.151012382,0.134171842,0.118254662,0.103290734,0.089311736,0.0763429787,0.0644077291,0.0535243715,0.0437084453,0.0349667099,0.0272984629,0.0206895808,0.0151125125,0.0105228754,0.00685547314,0.00402351119,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},{0.00197084908,0.00295060859,0.00412447721,0.00552688664,0.00717541132,0.0090875773,0.0112819105,0.0137695374,0.0165600266,0.0196650895,0.0230953556,0.0268612894,0.030963256,0.035403623,0.040191561,0.0453331403,0.0508289304,0.0566815448,0.0628935304,0.0694696293,0.0764106314,0.0837160016,0.0913884278,0.0994294008,0.107834725,0.116604575,0.125736503,0.135226811,0.145073546,0.155273819,0.165822194,0.176711174,0.187928776,0.19947318,0.211342953,0.223524554,0.2360031,0.248768614,0.261813811,0.275129161,0.288701102,0.302514034,0.316558805,0.330823871,0.345295567,0.359963992,0.374814544,0.389831817,0.40500101,0.420308013,0.435739515,0.451277817,0.466904918,0.482609041,0.498375466,0.514185341,0.530021478,0.545869352,0.561710041,0.577528151,0.593304696,0.609026346,0.624674189,0.640227555,0.655671016,0.670995935,0.686184559,0.701218384,0.716078449,0.730756084,0.745240679,0.759515122,0.773561955,0.787369206,0.800923138,0.814211386,0.827223833,0.839952374,0.852386102,0.864513675,0.876324079,0.887814288,0.898977415,0.909803319,0.920284312,0.930407518,0.940169652,0.949567795,0.958599937,0.96726026,0.975545166,0.983447719,0.990971957,0.998119269,1.00488283,1.01125773,1.01724436,1.02285381,1.02808734,1.03293706,1.03740495,1.04150164,1.04523236,1.04859791,1.0516034,1.05425505,1.05656184,1.058534,1.06017414,1.06149371,1.06249943,1.06320577,1.06362578,1.06376487,1.06363778,1.06325973,1.06264695,1.06180496,1.06074505,1.05948492,1.05804533,1.0564359,1.05466218,1.05274047,1.050695,1.04853894,1.04627898,1.04392435,1.0414954,1.03901003,1.03647725,1.03390793,1.03131989,1.02872867,1.02614832,1.02358988,1.02106486,1.01856262,1.0165577,1.01400658,1.01162953,1.0093859,1.00727455,1.00529616,1.00344526,1.0017225,1.00012792,0.998657533,0.997309592,0.996083571,0.994976569,0.993985158,0.99310753,0.992341305,0.991683335,0.99113007,0.990678325,0.990325325,0.990067562,0.989901282,0.989822613,0.989827845,0.989913241,0.990074734,0.990308256,0.990609852,0.990975314,0.99140033,0.991880966,0.992412851,0.992991779,0.993613381,0.994273149,0.994966958,0.99569037,0.996439157,0.997208572,0.997994275,0.998791616,0.999596062,1.0004041,1.00120985,1.00200976,1.00279924,1.00357357,1.00432828,1.0050585,1.00575984,1.00642767,1.00705768,1.00764515,1.00818549,1.00867427,1.00910687,1.00947916,1.00978659,1.01002476,1.01018954,1.01027669,1.01028203,1.01020174,1.01003208,1.00976919,1.00940939,1.00894931,1.00838641,1.0077178,1.00694031,1.00605124,1.00504879,1.00393183,1.00269767,1.00134427,0.999872092,0.998280464,0.996566569,0.994731737,0.992777987,0.990701374,0.988504165,0.986186892,0.983711989,0.980584643,0.977634164,0.974455033,0.971062916,0.96744727,0.963593926,0.959491398,0.955129725,0.950501326,0.94559281,0.940389877,0.93488676,0.929080559,0.92295928,0.916509579,0.909724456,0.90260735,0.895155084,0.887356154,0.879202689,0.870699698,0.861847424,0.85264175,0.843077833,0.833154905,0.822881272,0.812257597,0.801285439,0.789971715,0.778318177,0.76633771,0.754030328,0.741407991,0.728477501,0.715255742,0.701751739,0.687975632,0.673936911,0.659652573,0.645139489,0.630414716,0.615483622,0.600365852,0.585078858,0.569649536,0.55408481,0.538398518,0.522614738,0.506756805,0.490833753,0.474866033,0.458876566,0.442885823,0.426906539,0.410970973,0.395091024,0.379291327,0.363587417,0.348004343,0.332563201,0.317287485,0.30219671,0.287309403,0.272643992,0.258227431,0.244072856,0.230208977,0.216641416,0.203398481,0.190486162,0.177922122,0.165726674,0.153906397,0.142480547,0.13145398,0.120841778,0.110652194,0.100891734,0.0915718851,0.0826995967,0.0742815529,0.0663242382,0.0588334516,0.0518140676,0.0452698346,0.0392030848,0.0336144159,0.0285023308,0.0238629107,0.0196894227,0.0159720527,0.0126976223,0.00984937739,0.00740724463,0.00535665361,0.00383226552,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},{0.00184833037,0.00256481839,0.00336762118,0.00428736617,0.00533830143,0.00652679223,0.00786112587,0.00934628179,0.0109916868,0.0128011172,0.0147805911,0.0169307043,0.0192592307,0.0217696937,0.0244685983,0.0273556543,0.030431923,0.0336980464,0.0371583577,0.040814818,0.0446708068,0.0487262995,0.0529820633,0.057438247,0.062096858,0.0669609767,0.0720298364,0.0773039146,0.0827825574,0.0884682102,0.0943607566,0.100460272,0.106763824,0.113273679,0.11998642,0.126903521,0.134020853,0.141339557,0.148857211,0.156573685,0.164484622,0.172589077,0.18087909,0.18935432,0.198012244,0.206854141,0.215875319,0.225068672,0.234427407,0.243948314,0.253627993,0.263464061,0.273450494,0.283582189,0.293853469,0.304257373,0.314790914,0.325449123,0.33622741,0.34711876,0.358120177,0.369224663,0.380427793,0.391720023,0.403097022,0.414551955,0.426081719,0.437676318,0.449330196,0.461034855,0.472786043,0.484576777,0.496401707,0.508252458,0.520122078,0.532002077,0.54388809,0.555771601,0.567645739,0.579502786,0.591335035,0.603138367,0.614904172,0.626623941,0.638288834,0.649893375,0.66143236,0.672902514,0.68429375,0.69560046,0.706811784,0.717923425,0.728931386,0.739832773,0.750618982,0.761284053,0.771818919,0.782220992,0.79248133,0.802599448,0.81256523,0.822377129,0.832030518,0.841523208,0.850848313,0.860002412,0.868979881,0.877778347,0.886395904,0.894829421,0.903077626,0.911132652,0.918993585,0.926652937,0.93411142,0.941364344,0.948412967,0.95525563,0.961892013,0.968316363,0.974530156,0.980528338,0.986313928,0.991886049,0.997246345,1.0023919,1.00731946,1.01202707,1.01651654,1.0207943,1.02486082,1.02871471,1.0323517,1.03577375,1.03898432,1.04198786,1.04478564,1.04737818,1.04976743,1.05195405,1.0539429,1.05573463,1.05734177,1.05875726,1.05998674,1.06103672,1.06190651,1.06260369,1.06313289,1.06350237,1.06370981,1.06376322,1.06366765,1.06343012,1.06305656,1.06255421,1.06192235,1.06116702,1.06029469,1.05931469,1.05823465,1.05705891,1.05578948,1.05442979,1.05298793,1.05147505,1.0498993,1.04826213,1.04656691,1.04481699,1.04302125,1.04118768,1.03932339,1.03743168,1.03551757,1.03358511,1.03164371,1.02969955,1.02775944,1.02582719,1.02390791,1.02200805,1.0201391,1.0182631,1.01687901,1.01492195,1.01309662,1.01134205,1.00965912,1.00805036,1.00651754,1.00505799,1.00366956,1.00235327,1.00110981,0.999937523,0.998834524,0.997800606,0.996835756,0.995938881,0.995108459,0.994343411,0.993642921,0.993005832,0.992430984,0.991917493,0.991463898,0.991068214,0.990729218,0.990446225,0.990217819,0.990041963,0.989917085,0.989841975,0.989815048,0.989834329,0.989898211,0.990005403,0.990154189,0.990342427,0.990568459,0.990830953,0.991128038,0.991457566,0.991817881,0.992207559,0.992624757,0.993067358,0.993533398,0.99402141,0.994529685,0.995055964,0.995598351,0.99615558,0.996725627,0.997306092,0.997895214,0.998491441,0.99909289,0.999697063,1.00030303,1.00090793,1.00151084,1.00210923,1.00270118,1.00328513,1.00385926,1.00442111,1.0049686,1.0055004,1.00601455,1.00650869,1.00698104,1.00743004,1.00785364,1.00824962,1.00861604,1.00895138,1.0092539,1.00952134,1.00975175,1.00994371,1.0100955,1.01020488,1.01027007,1.01028975,1.01026227,1.01018562,1.0100582,1.00987882,1.00964593,1.00935753,1.00901228,1.00860959,1.00814837,1.00762674,1.00704343,1.00639775,1.00568877,1.00491559,1.00407768,1.00317429,1.00220424,1.00116684,1.00006248,0.998891422,0.997652252,0.996343856,0.994967462,0.993524663,0.992013927,0.990433283,0.988785147,0.987072681,0.985297443,0.983401161,0.980949418,0.978782729,0.976468238,0.97404285,0.971498848,0.968829968,0.966030974,0.963095104,0.960018198,0.956795738,0.953426267,0.949903482,0.946222115,0.94237582,0.938361702,0.934177798,0.929823124,0.92529232,0.92058012,0.915679793,0.910590604,0.90531503,0.899852756,0.894199497,0.888350152,0.882301631,0.876054874,0.869612385,0.862972799,0.856135198,0.849098179,0.841857024,0.834414055,0.826774617,0.818939244,0.810904891,0.802675318,0.794253751,0.785641662,0.776838609,0.767853193,0.758685181,0.749330658,0.739809171,0.730109944,0.720247781,0.710224161,0.700044326,0.68971189,0.679231154,0.668608179,0.657850997,0.646965718,0.635959617,0.624840336,0.613603503,0.602265091,0.590829083,0.579309408,0.567711124,0.556037416,0.544293664,0.532489768,0.520636084,0.508743273,0.496811166,0.484849881,0.472868107,0.460875918,0.448881081,0.436891039,0.424912022,0.412960603,0.401035896,0.389157867,0.377322199,0.365543767,0.353832356,0.342196115,0.33064482,0.319187559,0.307833309,0.296588182,0.285463717,0.274462409,0.263609584,0.252883101,0.242323489,0.231925746,0.221690837,0.211638058,0.20176692,0.192082236,0.18258916,0.173305997,0.1642292,0.155362654,0.146717079,0.138299391,0.130105078,0.12214531,0.114423458,0.106941076,0.0997025893,0.0927124283,0.0859737427,0.0794893311,0.0732616579,0.0672934102,0.0615874081,0.0561458003,0.0509700747,0.0460617047,0.0414220117,0.0370514189,0.0329494666,0.0291153327,0.0255476401,0.0222437711,0.0192000659,0.0164122205,0.0138747611,0.0115806353,0.00952213664,0.0076913738,0.00607207833,0.00462581217,0.00360685164,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},{0.00172152668,0.00220824874,0.00268901752,0.00322613342,0.0038101442,0.00445371932,0.0051536924,0.00591552473,0.00673869158,0.00762861841,0.00858361457,0.00960938437,0.0107060753,0.0118759723,0.013119013,0.0144390108,0.0158335301,0.0173063081,0.0188584711,0.0204918652,0.0222061476,0.0240057166,0.0258883593,0.0278552326,0.0299059145,0.0320415894,0.0342610013,0.0365680973,0.0389616721,0.0414435824,0.0440140796,0.0466742169,0.0494214625,0.0522588489,0.0551849337,0.0582005143,0.0613059845,0.0645038384,0.0677913923,0.0711707833,0.0746411071,0.0782028053,0.0818549521,0.0856000162,0.0894357617,0.0933642589,0.0973846703,0.101496718,0.10569876,0.109993603,0.114378287,0.118853508,0.123419277,0.128075997,0.132820581,0.137655457,0.142578648,0.147590522,0.152690437,0.157878853,0.163152529,0.168513363,0.173957969,0.179484737,0.185093105,0.190784835,0.196556497,0.202410419,0.208345433,0.214359825,0.220450365,0.226617296,0.232856279,0.239167941,0.245550642,0.252003951,0.258526168,0.265118408,0.271775911,0.278498539,0.285284606,0.292132459,0.299038432,0.306004256,0.313026529,0.320104862,0.327237324,0.33442321,0.341658622,0.348944976,0.356279252,0.363660034,0.371085146,0.378554327,0.386062695,0.393610554,0.401195225,0.408815272,0.41646846,0.424155411,0.431871046,0.439614744,0.447384019,0.455176988,0.462990138,0.470824619,0.478676593,0.486545433,0.494428714,0.502324813,0.510229471,0.518142927,0.526060916,0.533982818,0.541906817,0.549831283,0.557751234,0.565667636,0.573576883,0.581476666,0.589364661,0.597241338,0.605102013,0.61294617,0.620770242,0.628572094,0.636348526,0.644099662,0.651820973,0.659513822,0.667176382,0.674806795,0.682400711,0.689958854,0.697475722,0.704950145,0.71237998,0.719765434,0.727103833,0.734396372,0.741638561,0.748829639,0.755966688,0.763049259,0.770072273,0.777036981,0.783941108,0.790781257,0.797558114,0.804271381,0.810914901,0.817490856,0.823997094,0.830432785,0.83679695,0.843089298,0.849305847,0.85544731,0.861511037,0.867496281,0.873400798,0.879227518,0.884972438,0.890635719,0.896217173,0.901716414,0.90712877,0.912456578,0.917697261,0.922848784,0.927909917,0.932882596,0.937763323,0.942553356,0.947252428,0.951860206,0.95637606,0.960800602,0.9651306,0.969366689,0.973508812,0.977556541,0.981507226,0.98536458,0.989126209,0.992794201,0.996367545,0.999846919,1.00322812,1.00651341,1.00970073,1.01279029,1.01578293,1.01868229,1.02148657,1.02419772,1.02681455,1.02933598,1.03176043,1.03408981,1.03632326,1.03846361,1.04051196,1.04246831,1.04433331,1.04610837,1.04779018,1.04938334,1.05088565,1.05229923,1.05362522,1.05486289,1.05601521,1.05708746,1.05807221,1.05897524,1.05979447,1.06053414,1.06119412,1.06177366,1.06227662,1.06270324,1.06305569,1.06333815,1.063548,1.06368607,1.06375557,1.06375743,1.06369358,1.06356632,1.06337707,1.06312782,1.06282156,1.06245782,1.06203634,1.06155996,1.06102951,1.06044797,1.05981709,1.05914163,1.05842136,1.05765876,1.05685377,1.05600761,1.05512006,1.05419505,1.05323346,1.05223985,1.05121668,1.05016637,1.04908779,1.04798366,1.04685334,1.0456986,1.04452056,1.04332348,1.04210831,1.04087907,1.03963603,1.03838099,1.03711403,1.03583813,1.03455276,1.033262,1.0319675,1.030672,1.02937564,1.02808244,1.02679167,1.02550635,1.02422655,1.02295558,1.02169299,1.02044475,1.01920733,1.01799992,1.01716022,1.01587289,1.01461783,1.01339738,1.01221017,1.01105652,1.00993444,1.00884559,1.00778956,1.0067679,1.00577851,1.00482173,1.00389592,1.00300262,1.00214091,1.00131213,1.0005146,0.999748988,0.999013486,0.998309229,0.997634934,0.996991885,0.996378601,0.995795982,0.995242217,0.994718132,0.994222122,0.993755313,0.993316216,0.992905809,0.992522422,0.992166957,0.991837704,0.991535508,0.991258603,0.991007878,0.990781723,0.990581104,0.990404336,0.990252267,0.990123118,0.990017726,0.989934325,0.989873712,0.98983411,0.989816359,0.989818707,0.989841998,0.989884438,0.9899468,0.990027287,0.99012668,0.990243175,0.990377594,0.990528134,0.990695564,0.990878043,0.991076302,0.99128854,0.991515602,0.991755666,0.992009469,0.992275155,0.992553486,0.992842693,0.993143533,0.99345408,0.993775067,0.994104689,0.994443742,0.994790398,0.995145361,0.9955068,0.995875534,0.996249681,0.996629919,0.997014367,0.997403799,0.997796404,0.998192871,0.998591286,0.998992436,0.999394506,0.999798247,1.00020179,1.00060586,1.00100858,1.0014107,1.0018104,1.00220846,1.00260296,1.00299457,1.00338148,1.00376444,1.00414155,1.00451348,1.00487832,1.00523688,1.0055873,1.00593027,1.00626393,1.00658905,1.0069038,1.0072089,1.00750238,1.00778498,1.00805489,1.00831287,1.008557,1.00878802,1.00900405,1.00920593,1.00939182,1.00956244,1.0097159,1.00985296,1.00997177,1.01007317,1.01015529,1.01021893,1.01026225,1.01028602,1.01028842,1.0102703,1.01022988,1.01016802,1.01008292,1.00997541,1.00984369,1.00968863,1.00950846,1.00930404,1.00907371,1.00881848,1.00853675,1.00822947,1.00789488,1.00753391,1.00714488,1.00672876,1.00628393,1.00581146,1.00530991,1.00478053,1.00422177,1.00363456,1.00301719,1.00237067,1.00169363,1.00098749,1.00025108,0.999485663,0.998689592,0.997863666,0.99700637,0.996119199,0.995201404,0.994254687,0.993277595,0.992270651,0.991231967,0.990163286,0.989064394,0.987937115,0.986779736,0.985592773,0.984375125,0.983129288,0.981348463,0.979890963,0.978400459,0.976860435,0.975269879,0.973627353,0.971931341,0.970180498,0.968372652,0.966506952,0.964580027,0.962592318,0.960540986,0.958425534,0.956244393,0.953998416,0.951684014,0.949301185,0.946846884,0.944320232,0.941718404,0.93904258,0.936290624,0.93346405,0.930560854,0.927580507,0.924519592,0.921378471,0.918153414,0.914844696,0.911451652,0.907976524,0.904417545,0.900776308,0.897050058,0.893238398,0.889338681,0.88535136,0.881274023,0.877109638,0.872857927,0.868519505,0.864092796,0.859579819,0.854976007,0.85028522,0.845502615,0.84063047,0.835667925,0.830619943,0.825482007,0.820258909,0.814946648,0.809546696,0.804059978,0.798489378,0.792831417,0.787090668,0.78126245,0.775353947,0.769363613,0.763291769,0.757139016,0.750901711,0.744590843,0.738205136,0.731738075,0.725199287,0.718588225,0.711905687,0.705153668,0.698332634,0.691444101,0.684490545,0.677470119,0.670388375,0.66324521,0.65604578,0.648788627,0.641477162,0.634114323,0.626702,0.619235334,0.611720596,0.604161612,0.596559133,0.588914401,0.581234783,0.573519989,0.565770616,0.557988067,0.550173851,0.542330194,0.534460798,0.526568538,0.518656324,0.510728813,0.502781159,0.494819491,0.486845139,0.478860889,0.470869928,0.462875144,0.454877894,0.446882512,0.438889325,0.430898123,0.422918322,0.414950878,0.406993964,0.399052648,0.391134614,0.383234031,0.375354653,0.36750206,0.359680098,0.351887312,0.344130166,0.3364081,0.328728966,0.321090505,0.313496418,0.305951565,0.298454319,0.291010565,0.283621109,0.276285415,0.269019585,0.261812445,0.254659232,0.247584348,0.240578694,0.233647009,0.226788433,0.220001992,0.213301325,0.206677771,0.200140409,0.19368363,0.187310343,0.181027384,0.174839476,0.168739644,0.162737273,0.156825277,0.151012382,0.14529823,0.139687469,0.134171842,0.128762544,0.123455562,0.118254662,0.113159677,0.108171439,0.103290734,0.0985202978,0.0938600023,0.089311736,0.0848752103,0.0805523737,0.0763429787,0.0722489246,0.068269912,0.0644077291,0.0606620003,0.0570343711,0.0535243715,0.050133469,0.046861079,0.0437084453,0.0406748365,0.0377612269,0.0349667099,0.0322919275,0.0297357669,0.0272984629,0.0249787186,0.0227762542,0.0206895808,0.0187178169,0.0168593418,0.0151125125,0.0134757094,0.0119462709,0.0105228754,0.00920130941,0.00798124316,0.00685547314,0.00582657334,0.00487838525,0.00402351119,0.00315418663,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},{0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},{0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},{-0.000707854671,-0.00209819773,-0.00452519808,-0.00823397633,-0.013377131,-0.0199972156,-0.0280090946,-0.0372150208,-0.0473176826,-0.0579465483,-0.0686760675,-0.0790464744,-0.0885970547,-0.0968830362,-0.103496124,-0.108076646,-0.110324226,-0.109980985,-0.106817214,-0.100619042,-0.0911645251,-0.0782061748,-0.0614668812,-0.0406336286,-0.0153632952,0.0147015507,0.0498973651,0.0905036926,0.136691102,0.188468639,0.24564568,0.307778908,0.374164237,0.44381148,0.515473546,0.587666172,0.658761977,0.72705767,0.790875299,0.848664336,0.899132024,0.941334815,0.974763483,0.999411473,1.01576037,1.02473616,1.02763429,1.02599149,1.02142721,1.01543986,1.00936693,1.00350816,0.998889821,0.99531339,0.992594392,0.990577196,0.989137162,0.988179075,0.987624927,0.987405628,0.987452485,0.987695113,0.988064062,0.988492687,0.988923003,0.989307497,0.989614633,0.989831927,0.98996931,0.990060335,0.990157502,0.990325529,0.990630379,0.991129889,0.991866549,0.992861973,0.994115607,0.995603378,0.997279311,0.999078484,1.00092237,1.00272811,1.00441604,1.00591922,1.00718935,1.00820015,1.00894949,1.00945824,1.00976898,1.00994034,1.01003945,1.01013232,1.01027252,1.01049435,1.01080807,1.01120107,1.01164127,1.01208013,1.01245818,1.01270696,1.01275501,1.01253013,1.01196233,1.01098214,1.00951244,1.00746086,1.00470868,1.00111141,0.996504102,0.99072,0.982376587,0.970882175,0.954673298,0.932155386,0.901800368,0.862398408,0.813281737,0.754455197,0.686658072,0.611348804,0.530618165,0.447130985,0.363911468,0.284164703,0.211020945,0.147228797,0.0948266535,0.0548243661,0.0270146141,0.00999674359,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},{-0.000461989875,-0.000974716672,-0.0016644731,-0.00259710692,-0.00380628516,-0.00532460872,-0.00717588528,-0.00938248086,-0.011952703,-0.0148952816,-0.018206664,-0.0218757093,-0.0258847194,-0.0302086274,-0.0348159779,-0.0396706799,-0.0447269805,-0.0499422586,-0.0552633479,-0.0606371724,-0.0660096152,-0.0713196627,-0.0765117823,-0.0815296401,-0.0863113754,-0.0908041129,-0.0949537776,-0.0987073651,-0.102020268,-0.104843883,-0.107138231,-0.108869014,-0.109996966,-0.110489847,-0.110322584,-0.109462175,-0.107883429,-0.105561251,-0.102465016,-0.0985701457,-0.0938468492,-0.0882630999,-0.0817879272,-0.074387856,-0.066021898,-0.0566565564,-0.0462445689,-0.0347458578,-0.0221158161,-0.0083104257,0.00671769764,0.0230064206,0.0406010646,0.0595323909,0.0798335419,0.101523314,0.124617139,0.149115252,0.17500674,0.202269985,0.230865538,0.260736512,0.291814469,0.32400957,0.357217518,0.391314689,0.426157164,0.461592545,0.497447159,0.533532682,0.569654673,0.605608382,0.641183084,0.67616535,0.710340055,0.743494372,0.775428189,0.805943723,0.834858937,0.862010834,0.887259971,0.910486312,0.93159625,0.950522086,0.967236671,0.98173975,0.994055718,1.00424751,1.01240743,1.01865099,1.02311884,1.02597245,1.02739752,1.02758583,1.02673867,1.02506178,1.02275651,1.02000914,1.0169965,1.01391595,1.01104487,1.00777386,1.00484875,1.00224501,0.999939317,0.997905542,0.996120338,0.994559753,0.993203161,0.992029727,0.991023065,0.990166895,0.989448837,0.988855636,0.988377852,0.988005163,0.987729546,0.987541274,0.987432981,0.987394992,0.987419705,0.987497321,0.987620124,0.987778192,0.987963798,0.988167801,0.98838352,0.988602222,0.988818277,0.989024798,0.989217866,0.989392368,0.989546334,0.989677201,0.98978592,0.989872536,0.989941079,0.989994556,0.990039402,0.990081472,0.990129379,0.990190227,0.990273445,0.990386228,0.990537983,0.990734883,0.990984259,0.991290512,0.991658694,0.992090615,0.992588721,0.993151653,0.993779087,0.994466818,0.995211663,0.996006862,0.996846133,0.997720337,0.998621352,0.999538258,1.00046196,1.00138055,1.00228487,1.00316385,1.00400915,1.00481138,1.00556397,1.00625986,1.00689557,1.00746662,1.00797244,1.00841147,1.00878601,1.00909776,1.00935176,1.0095524,1.00970709,1.00982209,1.00990696,1.00996902,1.01001789,1.01006081,1.01010656,1.01016113,1.01023108,1.01031948,1.01043047,1.0105641,1.01072136,1.01089966,1.01109699,1.01130817,1.01152919,1.01175301,1.01197388,1.01218284,1.01237303,1.01253506,1.01266098,1.01274058,1.01276592,1.01272696,1.0126159,1.01242289,1.01214046,1.01175881,1.01126996,1.01066368,1.00993075,1.00905825,1.00803431,1.00684335,1.00547001,1.00389477,1.00209885,1.00006069,0.99776002,0.995174643,0.992286108,0.989075787,0.984736245,0.979861353,0.974137862,0.967333198,0.959253976,0.949698408,0.938463416,0.925356797,0.910198679,0.892833832,0.873143784,0.851042044,0.826483991,0.799468149,0.770043128,0.73830286,0.704381434,0.668461648,0.630775533,0.591579959,0.551170316,0.509891542,0.468101711,0.426177297,0.384517234,0.343522867,0.303600465,0.265143468,0.228528397,0.194102191,0.162173542,0.133001524,0.106784043,0.0836505724,0.0636518811,0.0467653841,0.0328807275,0.0218305756,0.0133638143,0.00675812489,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},{-0.000361349642,-0.000707854671,-0.00107444364,-0.00153347854,-0.00209819773,-0.00277842087,-0.00358412992,-0.00452519808,-0.00560932724,-0.00684323454,-0.00823397633,-0.00978531476,-0.011498803,-0.013377131,-0.0154218168,-0.0176297991,-0.0199972156,-0.0225208056,-0.025194063,-0.0280090946,-0.0309576509,-0.0340299627,-0.0372150208,-0.0405005325,-0.0438721922,-0.0473176826,-0.0508232534,-0.0543716664,-0.0579465483,-0.061534262,-0.0651170816,-0.0686760675,-0.0721944781,-0.0756569598,-0.0790464744,-0.0823444256,-0.0855332458,-0.0885970547,-0.091520911,-0.0942884745,-0.0968830362,-0.0992912326,-0.101500847,-0.103496124,-0.1052637,-0.106793998,-0.108076646,-0.10909973,-0.109852449,-0.110324226,-0.110508462,-0.110397741,-0.109980985,-0.109249277,-0.108197423,-0.106817214,-0.10509958,-0.103036011,-0.100619042,-0.0978412002,-0.0946930422,-0.0911645251,-0.0872464453,-0.0829304391,-0.0782061748,-0.0730614243,-0.0674846818,-0.0614668812,-0.0549949726,-0.0480544442,-0.0406336286,-0.0327204559,-0.0243012258,-0.0153632952,-0.00589143427,0.00412659586,0.0147015507,0.0258473819,0.0375765277,0.0498973651,0.0628203403,0.0763539773,0.0905036926,0.105274712,0.120670347,0.136691102,0.153334389,0.170595471,0.188468639,0.206944996,0.2260093,0.24564568,0.265834602,0.286554381,0.307778908,0.329476944,0.351617148,0.374164237,0.397073959,0.420304305,0.44381148,0.467544229,0.491449863,0.515473546,0.539555764,0.563639982,0.587666172,0.611569531,0.635289059,0.658761977,0.681923097,0.704709282,0.72705767,0.748906896,0.770199019,0.790875299,0.810878869,0.830157914,0.848664336,0.866354816,0.883189685,0.899132024,0.914154056,0.928228255,0.941334815,0.953461939,0.964604825,0.974763483,0.983943539,0.99215291,0.999411473,1.00574608,1.01118397,1.01576037,1.01951507,1.02249094,1.02473616,1.0263041,1.02725098,1.02763429,1.02751106,1.0269428,1.02599149,1.02471615,1.02317598,1.02142721,1.01952157,1.01751012,1.01543986,1.01346092,1.0116549,1.00936693,1.00726318,1.00531319,1.00350816,1.00184079,1.00030393,0.998889821,0.997591528,0.996401528,0.99531339,0.994320108,0.993415896,0.992594392,0.991851028,0.991179799,0.990577196,0.990038105,0.989559439,0.989137162,0.988768437,0.988449792,0.988179075,0.987952836,0.987769137,0.987624927,0.987517995,0.987445813,0.987405628,0.987395112,0.987411537,0.987452485,0.987514989,0.987596889,0.987695113,0.987807582,0.9879312,0.988064062,0.988203257,0.988347108,0.988492687,0.988638659,0.988782558,0.988923003,0.989058172,0.989186767,0.989307497,0.98941964,0.989522076,0.989614633,0.989697035,0.98976926,0.989831927,0.989885257,0.989930764,0.98996931,0.990002569,0.990032156,0.990060335,0.990088981,0.990120659,0.990157502,0.990202395,0.990257541,0.990325529,0.990408791,0.990509649,0.990630379,0.990772711,0.990938744,0.991129889,0.991347632,0.991592856,0.991866549,0.992169132,0.992501085,0.992861973,0.993251918,0.993670021,0.994115607,0.994587315,0.99508374,0.995603378,0.996143992,0.996703453,0.997279311,0.997869086,0.998469709,0.999078484,0.999691901,1.00030819,1.00092237,1.00153264,1.00213546,1.00272811,1.00330745,1.00387093,1.00441604,1.00494055,1.00544214,1.00591922,1.0063703,1.00679393,1.00718935,1.00755557,1.00789267,1.00820015,1.00847842,1.00872788,1.00894949,1.00914411,1.00931322,1.00945824,1.00958128,1.00968409,1.00976898,1.00983831,1.00989455,1.00994034,1.00997792,1.01001023,1.01003945,1.0100682,1.01009839,1.01013232,1.01017166,1.0102181,1.01027252,1.01033649,1.01041022,1.01049435,1.01058887,1.0106935,1.01080807,1.01093144,1.01106288,1.01120107,1.0113447,1.0114919,1.01164127,1.01179028,1.01193757,1.01208013,1.01221624,1.01234291,1.01245818,1.01255888,1.01264286,1.01270696,1.01274895,1.0127658,1.01275501,1.0127138,1.01263978,1.01253013,1.01238231,1.01219407,1.01196233,1.01168517,1.01135914,1.01098214,1.01055072,1.01006213,1.00951244,1.00889869,1.00821592,1.00746086,1.00662774,1.00571234,1.00470868,1.00361147,1.00241429,1.00111141,0.999696165,0.998162595,0.996504102,0.994714888,0.992789191,0.99072,0.988479371,0.985534766,0.982376587,0.978974733,0.975162381,0.970882175,0.966080552,0.96069764,0.954673298,0.947947935,0.940460905,0.932155386,0.922977548,0.912874535,0.901800368,0.889716328,0.876590897,0.862398408,0.84712008,0.830747973,0.813281737,0.794729145,0.775110884,0.754455197,0.732796355,0.710179084,0.686658072,0.662296243,0.637168412,0.611348804,0.58492066,0.557974743,0.530618165,0.502952396,0.475086883,0.447130985,0.419204992,0.391425291,0.363911468,0.336783777,0.310162784,0.284164703,0.258903371,0.23448806,0.211020945,0.188599764,0.167310081,0.147228797,0.128422307,0.110942255,0.0948266535,0.0800991437,0.0667676585,0.0548243661,0.0442458885,0.03499361,0.0270146141,0.0202437018,0.0146079676,0.00999674359,0.0053052351,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},{-0.000302115349,-0.000586773749,-0.0008366504,-0.00112663536,-0.00147049294,-0.00187347339,-0.00233929236,-0.00287200807,-0.00347625639,-0.00415596382,-0.00491456379,-0.0057551725,-0.00668062338,-0.00769381692,-0.00879676075,-0.00999050307,-0.0112757412,-0.0126533415,-0.0141243899,-0.0156888962,-0.0173451209,-0.0190909737,-0.0209254671,-0.0228468479,-0.0248520772,-0.026937467,-0.0290995249,-0.0313350463,-0.0336396073,-0.0360082097,-0.0384360174,-0.0409174603,-0.0434465489,-0.0460178672,-0.0486259851,-0.051264742,-0.0539264475,-0.0566038431,-0.0592911675,-0.061982682,-0.0646702555,-0.0673454222,-0.0700009902,-0.0726305701,-0.0752278496,-0.0777852594,-0.0802948025,-0.0827492454,-0.0851412546,-0.0874637912,-0.0897106934,-0.0918756408,-0.0939517698,-0.0959313774,-0.0978084326,-0.099578513,-0.101236117,-0.102774104,-0.104186122,-0.105468025,-0.106616088,-0.107625538,-0.10849123,-0.109208742,-0.109773615,-0.110180886,-0.110427188,-0.110510836,-0.110428147,-0.110173922,-0.109743736,-0.109135313,-0.108346734,-0.107373994,-0.106213016,-0.104860615,-0.10331324,-0.101567316,-0.0996200551,-0.0974680323,-0.0951072362,-0.0925330338,-0.0897412522,-0.0867287769,-0.0834921384,-0.080026399,-0.0763267954,-0.0723880616,-0.068205768,-0.0637761143,-0.05909386,-0.0541531632,-0.0489481272,-0.0434734711,-0.037724613,-0.0316958761,-0.0253817983,-0.018776891,-0.0118746138,-0.00466909925,0.00284409675,0.0106697612,0.0188135595,0.0272815601,0.0360781047,0.0452070276,0.054672388,0.0644786605,0.074628622,0.0851249057,0.0959698399,0.107165078,0.118711585,0.130610107,0.142859645,0.155458473,0.168404161,0.181694789,0.195327388,0.209296321,0.223594564,0.238216022,0.253152972,0.268396157,0.283936139,0.299762426,0.315861908,0.332221055,0.348826468,0.365664038,0.382715297,0.399961186,0.417384327,0.434966962,0.45268764,0.470524201,0.488453925,0.506454555,0.524500675,0.542567437,0.560631204,0.578667265,0.596647704,0.61454589,0.632336194,0.649992632,0.667487403,0.684793267,0.701883546,0.718732254,0.735312821,0.751600199,0.767569925,0.783197457,0.798458386,0.813329535,0.827789227,0.841817856,0.85539613,0.868506898,0.881133444,0.893259678,0.904874884,0.915965761,0.92652153,0.936533999,0.945997703,0.954908841,0.963265812,0.97106889,0.978320416,0.985022676,0.991179208,0.996798994,1.00189402,1.00647434,1.01055206,1.01414254,1.01726259,1.01992884,1.02215987,1.02397632,1.02540073,1.02645534,1.02716451,1.02755273,1.02764446,1.02746325,1.0270359,1.02638907,1.0255482,1.02453713,1.0233808,1.0221037,1.02072836,1.01927533,1.01776518,1.01621736,1.01466531,1.01324907,1.01194801,1.01018909,1.00855796,1.00701129,1.00554876,1.00416842,1.00286727,1.00164177,1.00048907,0.99940608,0.998389887,0.997437085,0.996544484,0.995709855,0.994930241,0.994202405,0.99352416,0.992893043,0.99230681,0.991763378,0.991259764,0.99079545,0.990367789,0.989975161,0.989616034,0.989289016,0.988992851,0.988726033,0.988486872,0.988275104,0.988089217,0.987927711,0.987789826,0.987674344,0.98758075,0.987507202,0.987452945,0.987416974,0.987398469,0.98739583,0.987408003,0.98743434,0.987473624,0.987524314,0.98758562,0.987656379,0.987735892,0.987822558,0.987915097,0.988013273,0.988115695,0.988221131,0.988328903,0.988437831,0.988547679,0.988656841,0.988764587,0.988870854,0.988974432,0.989074727,0.989171004,0.989263102,0.989350722,0.989433065,0.989509692,0.989581081,0.989646747,0.989706737,0.989760693,0.989809448,0.989853013,0.989891471,0.989925419,0.98995542,0.989982449,0.990006512,0.990028481,0.990049748,0.990070956,0.990092836,0.990116392,0.990142748,0.990173428,0.990208733,0.990249864,0.990298369,0.99035485,0.990420508,0.99049593,0.990582515,0.990681257,0.990792209,0.990916546,0.991055074,0.991208461,0.991376861,0.991560583,0.991760421,0.991976718,0.99220911,0.992457914,0.992723123,0.993004954,0.993302728,0.993616108,0.993945371,0.994289515,0.994648168,0.995020303,0.995405817,0.995803871,0.996213027,0.996632469,0.997061531,0.997499058,0.997943743,0.998394057,0.998849312,0.999308343,0.999768922,1.00023113,1.00069214,1.00115201,1.00160853,1.00206049,1.00250721,1.00294713,1.00337891,1.00380137,1.00421381,1.00461539,1.00500462,1.00538063,1.00574328,1.00609151,1.00642491,1.00674243,1.00704432,1.00733022,1.0075994,1.00785206,1.00808818,1.00830803,1.00851125,1.00869814,1.00886952,1.00902566,1.00916672,1.00929336,1.0094064,1.00950702,1.00959526,1.00967215,1.00973908,1.00979668,1.00984614,1.00988808,1.00992409,1.00995538,1.00998227,1.0100063,1.01002862,1.01005025,1.01007195,1.01009437,1.01011892,1.0101465,1.01017711,1.01021176,1.010251,1.01029547,1.01034523,1.01040032,1.01046156,1.01052862,1.01060152,1.01067979,1.01076391,1.01085343,1.01094755,1.01104595,1.01114849,1.0112544,1.01136308,1.0114733,1.011585,1.01169742,1.01180892,1.01191926,1.01202724,1.01213215,1.01223273,1.01232756,1.01241638,1.01249789,1.01257043,1.0126333,1.01268528,1.01272556,1.01275258,1.01276506,1.01276236,1.01274338,1.01270648,1.01265084,1.01257543,1.01247947,1.01236111,1.01221981,1.01205436,1.011864,1.01164722,1.01140252,1.01112965,1.01082695,1.01049292,1.01012635,1.00972589,1.00929006,1.0088173,1.00830503,1.00775283,1.00715783,1.00651805,1.0058314,1.00509559,1.00430863,1.0034675,1.0025695,1.00161271,1.00059427,0.99951117,0.998360922,0.997140929,0.995848886,0.994481854,0.993037528,0.991514656,0.98991368,0.988193062,0.985942259,0.98356679,0.981142303,0.978521444,0.975663604,0.972545344,0.969145663,0.965440618,0.961404362,0.957011307,0.952236767,0.947054884,0.941440374,0.935369161,0.928819009,0.921766289,0.914189628,0.906069468,0.897389168,0.8881332,0.878289389,0.867846957,0.856797064,0.845133465,0.832854281,0.819959478,0.806451101,0.792334648,0.777620449,0.762320618,0.746448649,0.730020573,0.713056738,0.695580544,0.677617323,0.659195531,0.640348643,0.62110722,0.601504928,0.581578761,0.561367451,0.540918863,0.520273683,0.499478073,0.478577418,0.45761726,0.436649021,0.415722146,0.394885659,0.374190319,0.35368689,0.333426002,0.313458647,0.29383379,0.274599264,0.255803064,0.237490219,0.219703603,0.202485542,0.185874992,0.16990678,0.154613227,0.140023821,0.12616374,0.113053443,0.100708497,0.0891402439,0.078356121,0.0683582123,0.0591421154,0.0506989301,0.0430171776,0.0360802073,0.0298631634,0.0243372266,0.0194767524,0.0152571017,0.0116378749,0.00843308778,0.004449669,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},{-0.000235303215,-0.000461989875,-0.000626293154,-0.000792918043,-0.000974716672,-0.00118025689,-0.00140920904,-0.0016644731,-0.00194659161,-0.00225708173,-0.00259710692,-0.00296760762,-0.00337045488,-0.00380628516,-0.00427687377,-0.0047824699,-0.00532460872,-0.00590340381,-0.00652041973,-0.00717588528,-0.00787142282,-0.00860658604,-0.00938248086,-0.0101982718,-0.0110552055,-0.011952703,-0.0128920591,-0.0138726348,-0.0148952816,-0.0159585662,-0.0170628856,-0.018206664,-0.0193906598,-0.0206135542,-0.0218757093,-0.0231752632,-0.0245122745,-0.0258847194,-0.0272926374,-0.028733909,-0.0302086274,-0.0317144037,-0.0332509886,-0.0348159779,-0.0364089241,-0.0380274232,-0.0396706799,-0.0413357542,-0.0430220337,-0.0447269805,-0.0464502229,-0.0481889149,-0.0499422586,-0.051706908,-0.0534816204,-0.0552633479,-0.0570512315,-0.0588427175,-0.0606371724,-0.0624310403,-0.0642230355,-0.0660096152,-0.0677896227,-0.0695599687,-0.0713196627,-0.0730658127,-0.0747975891,-0.0765117823,-0.0782071142,-0.0798801069,-0.0815296401,-0.0831523735,-0.0847472895,-0.0863113754,-0.0878437445,-0.0893416436,-0.0908041129,-0.0922279576,-0.0936123287,-0.0949537776,-0.0962515531,-0.0975028462,-0.0987073651,-0.0998627129,-0.100968022,-0.102020268,-0.10301838,-0.103959636,-0.104843883,-0.105668684,-0.106434282,-0.107138231,-0.107779996,-0.108357063,-0.108869014,-0.109313559,-0.109690356,-0.109996966,-0.110233226,-0.110397281,-0.110489847,-0.110508642,-0.110453743,-0.110322584,-0.110114583,-0.109827693,-0.109462175,-0.109016396,-0.108490885,-0.107883429,-0.107193718,-0.106419636,-0.105561251,-0.104616281,-0.103584904,-0.102465016,-0.1012569,-0.0999586457,-0.0985701457,-0.0970891114,-0.0955154582,-0.0938468492,-0.0920830006,-0.0902217102,-0.0882630999,-0.0862049382,-0.0840474215,-0.0817879272,-0.0794262503,-0.0769598078,-0.074387856,-0.07170797,-0.0689199478,-0.066021898,-0.0630134942,-0.0598919191,-0.0566565564,-0.0533040616,-0.0498342724,-0.0462445689,-0.0425345569,-0.0387019577,-0.0347458578,-0.0306634152,-0.0264542508,-0.0221158161,-0.0176474054,-0.0130458136,-0.0083104257,-0.00343826866,0.00157031548,0.00671769764,0.0120047702,0.0174339832,0.0230064206,0.0287248142,0.0345889635,0.0406010646,0.0467610292,0.0530713391,0.0595323909,0.0661464781,0.0729129318,0.0798335419,0.0869080741,0.0941381377,0.101523314,0.109065152,0.116762655,0.124617139,0.132627295,0.140793819,0.149115252,0.157592141,0.16622248,0.17500674,0.183943194,0.193031818,0.202269985,0.211656743,0.221188852,0.230865538,0.240683799,0.250642064,0.260736512,0.270965907,0.281325902,0.291814469,0.302427028,0.31316035,0.32400957,0.334971959,0.346042294,0.357217518,0.368491565,0.379859512,0.391314689,0.402853287,0.414468833,0.426157164,0.43791139,0.449725632,0.461592545,0.473506703,0.485460018,0.497447159,0.509459723,0.521490984,0.533532682,0.545578981,0.557621716,0.569654673,0.581668558,0.593656062,0.605608382,0.617519206,0.629379661,0.641183084,0.652920354,0.664584079,0.67616535,0.687657395,0.699051154,0.710340055,0.721514933,0.732569177,0.743494372,0.754284633,0.764931365,0.775428189,0.785767017,0.795941465,0.805943723,0.815768707,0.825408622,0.834858937,0.844112583,0.853165119,0.862010834,0.870645634,0.879063156,0.887259971,0.895231329,0.902975168,0.910486312,0.917762555,0.924799743,0.93159625,0.938149486,0.944458839,0.950522086,0.956340292,0.961911452,0.967236671,0.972315664,0.977150119,0.98173975,0.986086587,0.990190638,0.994055718,0.99768424,1.00108096,1.00424751,1.00718858,1.00990665,1.01240743,1.0146947,1.01677466,1.01865099,1.02033046,1.02181733,1.02311884,1.02424026,1.02518972,1.02597245,1.02659694,1.02706918,1.02739752,1.0275879,1.02764895,1.02758583,1.02740852,1.02712299,1.02673867,1.02626166,1.025701,1.02506178,1.02435398,1.02358239,1.02275651,1.0218806,1.02096387,1.02000914,1.01902729,1.01801944,1.0169965,1.01595743,1.01492344,1.01391595,1.01304757,1.01221613,1.01104487,1.00991459,1.00882489,1.00777386,1.0067617,1.00578665,1.00484875,1.00394608,1.00307885,1.00224501,1.00144473,1.00067619,0.999939317,0.999232085,0.998554813,0.997905542,0.997284268,0.996689095,0.996120338,0.995576126,0.995056572,0.994559753,0.994086038,0.993633779,0.993203161,0.992792187,0.992401518,0.992029727,0.991676778,0.991340877,0.991023065,0.990721643,0.99043668,0.990166895,0.989913101,0.989673564,0.989448837,0.989237484,0.989040193,0.988855636,0.988684347,0.988524761,0.988377852,0.988242327,0.988118564,0.988005163,0.987903202,0.987811174,0.987729546,0.987657198,0.987594984,0.987541274,0.987496906,0.987460625,0.987432981,0.987412641,0.987400475,0.987394992,0.987396916,0.987404906,0.987419705,0.987439972,0.987466328,0.987497321,0.987533893,0.987574654,0.987620124,0.98766898,0.987722156,0.987778192,0.987837649,0.987899199,0.987963798,0.98803003,0.988098468,0.988167801,0.98823903,0.988310769,0.98838352,0.988456016,0.98852942,0.988602222,0.98867494,0.988746626,0.988818277,0.988888248,0.988957438,0.989024798,0.989091125,0.98915517,0.989217866,0.989277956,0.989336519,0.989392368,0.989446283,0.989497212,0.989546334,0.989592362,0.989636265,0.989677201,0.98971622,0.989752029,0.98978592,0.989817027,0.989846207,0.989872536,0.989897514,0.989920005,0.989941079,0.989960061,0.989978226,0.989994556,0.99001035,0.990024832,0.990039402,0.990053211,0.990067475,0.990081472,0.990096693,0.990112245,0.990129379,0.990147465,0.99016806,0.990190227,0.99021519,0.990242442,0.990273445,0.990307127,0.990344891,0.990386228,0.990432448,0.990482565,0.990537983,0.99059806,0.990664037,0.990734883,0.990812038,0.990894786,0.990984259,0.991079525,0.991181924,0.991290512,0.991406471,0.991528801,0.991658694,0.991795272,0.991939622,0.992090615,0.992249503,0.99241524,0.992588721,0.992768871,0.992956911,0.993151653,0.993353924,0.993562689,0.993779087,0.994001643,0.994231202,0.994466818,0.994709344,0.994957285,0.995211663,0.995471264,0.995736795,0.996006862,0.996282303,0.996561799,0.996846133,0.997133827,0.997425669,0.997720337,0.998018509,0.998318587,0.998621352,0.998925543,0.999231731,0.999538258,0.999846116,1.00015391,1.00046196,1.00076886,1.00107561,1.00138055,1.00168424,1.00198543,1.00228487,1.00258098,1.00287441,1.00316385,1.00345006,1.00373157,1.00400915,1.00428146,1.00454934,1.00481138,1.00506827,1.0053188,1.00556397,1.00580227,1.00603455,1.00625986,1.00647902,1.00669054,1.00689557,1.00709305,1.0072838,1.00746662,1.00764273,1.00781104,1.00797244,1.00812588,1.0082726,1.00841147,1.00854357,1.00866802,1.00878601,1.00889653,1.00900077,1.00909776,1.00918888,1.00927316,1.00935176,1.00942394,1.00949118,1.0095524,1.00960889,1.00965997,1.00970709,1.00974924,1.00978774,1.00982209,1.00985371,1.0098815,1.00990696,1.00992957,1.00995057,1.00996902,1.0099865,1.01000236,1.01001789,1.01003217,1.01004672,1.01006081,1.01007567,1.01009045,1.01010656,1.01012323,1.01014176,1.01016113,1.01018264,1.01020559,1.01023108,1.01025795,1.01028773,1.01031948,1.01035408,1.01039064,1.01043047,1.01047227,1.0105171,1.0105641,1.01061427,1.01066629,1.01072136,1.01077842,1.01083825,1.01089966,1.01096373,1.01102919,1.01109699,1.01116586,1.01123661,1.01130817,1.01138145,1.01145479,1.01152919,1.01160368,1.0116788,1.01175301,1.01182748,1.01190094,1.01197388,1.01204489,1.01211499,1.01218284,1.01224902,1.0123121,1.01237303,1.01243046,1.01248497,1.01253506,1.01258168,1.01262347,1.01266098,1.01269276,1.01271979,1.01274058,1.01275575,1.01276395,1.01276592,1.0127603,1.01274782,1.01272696,1.01269861,1.0126614,1.0126159,1.01256083,1.01249705,1.01242289,1.01233923,1.01224492,1.01214046,1.0120243,1.01189756,1.01175881,1.01160845,1.01144516,1.01126996,1.01108126,1.01087961,1.01066368,1.01043418,1.01018968,1.00993075,1.00965566,1.00936525,1.00905825,1.00873476,1.00839308,1.00803431,1.00765666,1.00726014,1.00684335,1.00640701,1.00594915,1.00547001,1.00496799,1.00444353,1.00389477,1.0033219,1.00272313,1.00209885,1.00144728,1.00076851,1.00006069,0.999324268,0.99855735,0.99776002,0.996930604,0.996069427,0.995174643,0.994246644,0.993283713,0.992286108,0.991252309,0.990182742,0.989075787,0.987931302,0.986355322,0.984736245,0.983175095,0.981558334,0.979861353,0.978061749,0.976157432,0.974137862,0.971999011,0.969732741,0.967333198,0.964791512,0.96210115,0.959253976,0.956242718,0.953060091,0.949698408,0.946149812,0.942407161,0.938463416,0.934311297,0.929944987,0.925356797,0.920540463,0.915489628,0.910198679,0.90466206,0.898875519,0.892833832,0.886533719,0.879971272,0.873143784,0.866047653,0.858681252,0.851042044,0.843129723,0.834943514,0.826483991,0.817750537,0.808744982,0.799468149,0.789923516,0.780113773,0.770043128,0.759714574,0.749133097,0.73830286,0.727229876,0.715920192,0.704381434,0.692619693,0.680643883,0.668461648,0.656083014,0.643517927,0.630775533,0.617864165,0.604795463,0.591579959,0.578228937,0.564753589,0.551170316,0.537490509,0.52372635,0.509891542,0.496000807,0.482066294,0.468101711,0.4541217,0.440142182,0.426177297,0.412241789,0.398349961,0.384517234,0.370758372,0.357088679,0.343522867,0.330076376,0.316764033,0.303600465,0.290599616,0.27777585,0.265143468,0.252716188,0.240506985,0.228528397,0.216793343,0.20531399,0.194102191,0.183168087,0.172522195,0.162173542,0.152132068,0.14240528,0.133001524,0.123926066,0.11518583,0.106784043,0.0987263751,0.09101379,0.0836505724,0.0766350831,0.0699703341,0.0636518811,0.0576817602,0.0520524422,0.0467653841,0.0418095054,0.0371864025,0.0328807275,0.028895485,0.0252098057,0.0218305756,0.0187289619,0.0159212782,0.0133638143,0.0110855888,0.00894347419,0.00675812489,0.00350443813,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},{0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,9.42341174e-08,6.19838374e-07,1.8260381e-06,4.2274155e-06,8.56822135e-06,1.59013834e-05,2.76738483e-05,4.58246141e-05,7.28956657e-05,0.000112155336,0.000167733029,0.000244763592,0.00034953907,0.000489664846,0.000674216484,0.000913893222,0.00122116262,0.00161039189,0.00209795963,0.00270234118,0.0034441629,0.00434621749,0.00543343695,0.00673281262,0.00827326626,0.010085457,0.0122015327,0.014654818,0.0174794346,0.0207098722,0.0243804958,0.0285249949,0.0331758074,0.0383635014,0.0441161096,0.050458502,0.0574117042,0.0649922863,0.0732117295,0.0820759088,0.0915845558,0.101730898,0.112501279,0.123875007,0.135824218,0.148313895,0.16130209,0.174740151,0.188573152,0.202740535,0.217176691,0.231811777,0.246572644,0.261383832,0.276168495,0.290849626,0.305351138,0.319598824,0.333521664,0.347052664,0.360129982,0.37269792,0.384707332,0.396116525,0.406891733,0.417007536,0.426446915,0.435201406,0.443271041,0.450664014,0.457396388,0.463491529,0.468979478,0.473896384,0.478283674,0.482187212,0.485656589,0.488744229,0.491504699,0.493993789,0.496267974,0.49838376,0.500396967,0.50236243,0.504333496,0.506361604,0.508496106,0.510783911,0.513269365,0.515994072,0.518996596,0.522312462,0.525973916,0.530009925,0.534445822,0.539303243,0.54460007,0.550350249,0.556563497,0.563245535,0.570397854,0.578017771,0.586098313,0.594628513,0.60359329,0.612973869,0.622747838,0.63288945,0.643370092,0.654158235,0.665220201,0.676520288,0.688021243,0.699684739,0.711471498,0.723342001,0.735256732,0.747176409,0.759062469,0.770877421,0.782584906,0.794150114,0.805540025,0.816723466,0.827671409,0.838356972,0.848755658,0.858845115,0.868605733,0.878019989,0.88707298,0.895752132,0.904047191,0.91195029,0.919455826,0.926560223,0.933262229,0.939562619,0.945464134,0.950971425,0.956090987,0.960831106,0.965201676,0.969214201,0.972881556,0.976217866,0.97923851,0.981959701,0.984398544,0.986572623,0.988499999,0.99019897,0.991687655,0.992984235,0.994106293,0.995071113,0.995895147,0.996594131,0.997182965,0.997675478,0.998084545,0.998421967,0.998698533,0.998923838,0.999106586,0.999254227,0.999373496,0.999470055,0.999548733,0.999613643,0.999668002,0.999714673,0.99975574,0.999792874,0.999827385,0.999860168,0.999891937,0.99992311,0.999953985,0.999984682,1.00001526,1.00004578,1.00007617,1.00010622,1.00013602,1.00016546,1.00019431,1.00022256,1.0002501,1.00027692,1.00030291,1.00032794,1.00035203,1.00037491,1.00039685,1.00041747,1.0004369,1.00045502,1.00047183,1.00048721,1.00050116,1.00051367,1.00052476,1.00053418,1.00054228,1.00054872,1.00055361,1.00055695,1.00055885,1.00055909,1.0005579,1.00055504,1.00055087,1.00054502,1.00053787,1.00052929,1.00051928,1.00050783,1.0004952,1.00048113,1.00046599,1.00044954,1.00043201,1.0004133,1.00039363,1.00037301,1.00035143,1.0003289,1.00030565,1.00028157,1.0002569,1.0002315,1.00020564,1.00017929,1.00015235,1.00012517,1.00009763,1.00006998,1.00004208,1.00001407,0.999985993,0.999957979,0.999930084,0.999902308,0.99987483,0.999847591,0.999820769,0.999794364,0.999768496,0.999743164,0.999718428,0.999694467,0.999671161,0.99964875,0.999627173,0.99960649,0.999586821,0.999568224,0.999550641,0.999534249,0.99951905,0.999505103,0.999492407,0.999481022,0.999471009,0.999462426,0.999455214,0.999449492,0.9994452,0.999442458,0.999441206,0.999441504,0.999443293,0.99944669,0.999451578,0.999458075,0.999466062,0.999475598,0.999486566,0.999499083,0.99951303,0.999528408,0.999545157,0.999563277,0.999582708,0.999603331,0.999625206,0.999648154,0.999672174,0.999697208,0.999723136,0.999749959,0.999777496,0.999805748,0.999834597,0.999863982,0.999893785,0.999923885,0.999954224,0.999984741,1.00001526,1.00004578,1.00007617,1.00010622,1.00013602,1.00016546,1.00019431,1.00022256,1.0002501,1.00027692,1.00030291,1.00032794,1.00035203,1.00037491,1.00039685,1.00041747,1.0004369,1.00045502,1.00047183,1.00048721,1.00050116,1.00051367,1.00052476,1.00053418,1.00054228,1.00054872,1.00055361,1.00055695,1.00055885,1.00055909,1.0005579,1.00055504,1.00055087,1.00054502,1.00053787,1.00052929,1.00051928,1.00050783,1.0004952,1.00048113,1.00046599,1.00044954,1.00043201,1.0004133,1.00039363,1.00037301,1.00035143,1.0003289,1.00030565,1.00028157,1.0002569,1.0002315,1.00020564,1.00017929,1.00015235,1.00012517,1.00009763,1.00006998,1.00004208,1.00001407,0.999985993,0.999957979,0.999930084,0.999902308,0.99987483,0.999847591,0.999820769,0.999794364,0.999768496,0.999743164,0.999718428,0.999694467,0.999671161,0.99964875,0.999627173,0.99960649,0.999586821,0.999568224,0.999550641,0.999534249,0.99951905,0.999505103,0.999492407,0.999481022,0.999471009,0.999462426,0.999455214,0.999449492,0.9994452,0.999442458,0.999441206,0.999441504,0.999443293,0.99944669,0.999451578,0.999458075,0.999466062,0.999475598,0.999486566,0.999499083,0.99951303,0.999528408,0.999545157,0.999563277,0.999582708,0.999603331,0.999625206,0.999648154,0.999672174,0.999697208,0.999723136,0.999749959,0.999777496,0.999805748,0.999834597,0.999863982,0.999893785,0.999923885,0.999954224,0.999984741,1.00001526,1.00004578,1.00007617,1.00010622,1.00013602,1.00016546,1.00019431,1.00022256,1.0002501,1.00027692,1.00030291,1.00032794,1.00035203,1.00037491,1.00039685,1.00041747,1.0004369,1.00045502,1.00047183,1.00048721,1.00050116,1.00051367,1.00052476,1.00053418,1.00054228,1.00054872,1.00055361,1.00055695,1.00055885,1.00055909,1.0005579,1.00055504,1.00055087,1.00054502,1.00053787,1.00052929,1.00051928,1.00050783,1.0004952,1.00048113,1.00046599,1.00044954,1.00043201,1.0004133,1.00039363,1.00037301,1.00035143,1.0003289,1.00030565,1.00028157,1.0002569,1.0002315,1.00020564,1.00017929,1.00015235,1.00012517,1.00009763,1.00006998,1.00004208,1.00001407,0.999985993,0.999957979,0.999930084,0.999902308,0.99987483,0.999847591,0.999820769,0.999794364,0.999768496,0.999743164,0.999718428,0.999694467,0.999671161,0.99964875,0.999627173,0.99960649,0.999586821,0.999568224,0.999550641,0.999534249,0.99951905,0.999505103,0.999492407,0.999481022,0.999471009,0.999462426,0.999455214,0.999449492,0.9994452,0.999442458,0.999441206,0.999441504,0.999443293,0.99944669,0.999451578,0.999458075,0.999466062,0.999475598,0.999486566,0.999499083,0.99951303,0.999528408,0.999545157,0.999563277,0.999582708,0.999603331,0.999625206,0.999648154,0.999672174,0.999697208,0.999723136,0.999749959,0.999777496,0.999805748,0.999834597,0.999863982,0.999893785,0.999923885,0.999954224,0.999984741,1.00001526,1.00004554,1.00007534,1.00010443,1.0001322,1.00015819,1.00018132,1.00020075,1.00021482,1.00022173,1.00021923,1.00020432,1.00017369,1.00012279,1.00004685,0.999939978,0.999795198,0.999604583,0.99935925,0.999048889,0.998662114,0.998186171,0.997606814,0.996908367,0.996073723,0.995083988,0.993918717,0.992555678,0.990970671,0.989137888,0.987029374,0.984615326,0.981863916,0.978741586,0.975212753,0.971240282,0.966785491,0.961808383,0.956268132,0.95012331,0.943332374,0.935854316,0.927648962,0.918677926,0.90890491,0.898296535,0.886823177,0.874459147,0.861183822,0.846981943,0.831844091,0.815767467,0.798755884,0.780820429,0.76197952,0.742259145,0.72169286,0.700321794,0.678194642,0.655367255,0.631902635,0.60787046,0.583346546,0.558412433,0.533154905,0.507664979,0.482037485,0.456370175,0.430762708,0.405315757,0.380130053,0.355305195,0.330938727,0.307124883,0.283953428,0.261508703,0.239868388,0.219102606,0.199272946,0.180431694,0.162621215,0.145873442,0.130209655,0.115640387,0.102165572,0.0897749513,0.0784486011,0.0681576878,0.0588653944,0.0505279638,0.0430957973,0.0365146622,0.0307268873,0.0256725382,0.0212905537,0.0175197981,0.0143000064,0.0115726292,0.00928153656,0.00737359654,0.00579912262,0.00451218896,0.00347083295,0.00263714185,0.00197724649,0.00146123092,0.00106297329,0.000759930001,0.000532880833,0.000365644053,0.00024477538,0.000159260671,0.000100211051,6.05685127e-05,3.48275607e-05,1.87775731e-05,9.26902067e-06,4.00523413e-06,1.3598916e-06,2.06769442e-07,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},{0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,6.66310811e-08,2.23723916e-07,4.87541854e-07,8.99672727e-07,1.5114183e-06,2.38590815e-06,3.6000215e-06,5.24645884e-06,7.43599958e-06,1.02999529e-05,1.39928125e-05,1.86951092e-05,2.461648e-05,3.19989194e-05,4.11202636e-05,5.22978444e-05,6.589236e-05,8.23118899e-05,0.000102016144,0.000125520819,0.000153402099,0.00018630136,0.000224929841,0.000270073535,0.000322598062,0.000383453589,0.000453679706,0.000534410414,0.000626878755,0.000732421642,0.000852484489,0.000988625223,0.00114251883,0.00131596089,0.00151087111,0.00172929652,0.00197341433,0.00224553375,0.0025480981,0.00288368552,0.00325501012,0.00366492104,0.00411640201,0.00461257016,0.00515667303,0.00575208431,0.00640230207,0.00711094262,0.00788173359,0.00871850923,0.00962519925,0.0106058242,0.0116644828,0.0128053408,0.0140326228,0.0153505951,0.0167635549,0.018275816,0.0198916886,0.0216154736,0.0234514344,0.0254037846,0.0274766665,0.0296741407,0.0320001543,0.0344585292,0.0370529443,0.0397869013,0.0426637232,0.0456865206,0.0488581695,0.0521813035,0.0556582808,0.0592911765,0.0630817562,0.067031458,0.0711413696,0.0754122287,0.0798443928,0.0844378322,0.0891921073,0.0941063836,0.0991793722,0.104409374,0.109794252,0.115331404,0.121017799,0.126849949,0.132823929,0.138935357,0.145179421,0.151550874,0.158044025,0.16465281,0.17137073,0.178190947,0.185106188,0.192108899,0.199191183,0.206344813,0.213561311,0.22083196,0.22814779,0.23549965,0.242878228,0.250274092,0.257677704,0.265079439,0.27246967,0.279838771,0.287177145,0.294475257,0.301723719,0.308913231,0.316034675,0.323079228,0.33003819,0.336903185,0.343666196,0.350319386,0.356855512,0.363267571,0.369548947,0.3756935,0.381695598,0.387549996,0.393251985,0.398797333,0.404182315,0.409403801,0.414459109,0.419346124,0.424063236,0.428609401,0.432984143,0.437187403,0.441219747,0.445082188,0.448776275,0.452303976,0.455667824,0.458870709,0.461916,0.464807451,0.467549264,0.470145911,0.472602278,0.474923581,0.477115244,0.479183048,0.481132984,0.482971221,0.484704226,0.486338496,0.487880766,0.489337832,0.490716666,0.492024213,0.493267536,0.494453669,0.495589703,0.496682733,0.497739762,0.498767793,0.499773741,0.500764489,0.501746774,0.50272727,0.503712595,0.504709125,0.505723178,0.506760955,0.507828474,0.508931518,0.510075927,0.511267185,0.512510598,0.513811469,0.515174806,0.516605377,0.518107831,0.51968658,0.521345973,0.523089945,0.524922311,0.526846766,0.528866649,0.530985177,0.533205211,0.535529494,0.537960529,0.540500462,0.543151379,0.545914948,0.54879266,0.551785827,0.554895282,0.5581218,0.5614658,0.564927518,0.568506777,0.572203338,0.576016545,0.579945564,0.583989203,0.588146091,0.592414677,0.596792936,0.601278901,0.605870068,0.610563993,0.615357757,0.620248437,0.625232756,0.630307317,0.635468543,0.640712619,0.646035612,0.651433527,0.656902015,0.662436843,0.668033481,0.673687398,0.679393888,0.685148239,0.690945625,0.696781278,0.70265013,0.708547413,0.714468122,0.720407307,0.726359963,0.732321203,0.738286138,0.74424988,0.750207603,0.756154597,0.762086034,0.767997444,0.773884177,0.779741824,0.785566032,0.79135257,0.797097266,0.802796185,0.808445334,0.814041018,0.819579542,0.825057447,0.830471396,0.835818112,0.841094613,0.84629792,0.851425231,0.856473923,0.861441612,0.866325855,0.871124566,0.875835657,0.880457282,0.884987772,0.889425457,0.893768966,0.898017049,0.902168512,0.906222403,0.910177886,0.914034188,0.917790771,0.921447217,0.925003231,0.928458691,0.931813419,0.935067594,0.938221455,0.941275299,0.944229603,0.947084904,0.949841976,0.952501595,0.955064654,0.957532167,0.959905326,0.962185323,0.964373529,0.966471374,0.968480289,0.970402002,0.972238123,0.97399044,0.975660801,0.977251112,0.978763342,0.980199575,0.98156178,0.982852161,0.984072864,0.985226095,0.986314118,0.987339139,0.988303483,0.989209354,0.990059078,0.990854919,0.991599143,0.992294014,0.992941797,0.993544638,0.994104803,0.994624376,0.995105505,0.995550215,0.995960534,0.996338427,0.996685863,0.997004628,0.997296572,0.997563362,0.997806728,0.998028338,0.998229563,0.998412073,0.998577118,0.998726189,0.998860478,0.998981178,0.999089479,0.999186397,0.999273062,0.999350369,0.999419153,0.999480307,0.999534547,0.999582708,0.999625325,0.999663055,0.999696434,0.999726057,0.999752283,0.999775589,0.999796331,0.999814928,0.999831557,0.999846578,0.999860287,0.999872804,0.999884307,0.999895036,0.999905109,0.999914587,0.999923646,0.999932408,0.999940872,0.999949098,0.999957144,0.999965072,0.999972939,0.999980748,0.999988437,0.999996126,1.00000381,1.00001144,1.00001907,1.0000267,1.00003433,1.00004184,1.00004935,1.00005686,1.00006437,1.00007176,1.00007904,1.00008631,1.00009358,1.00010073,1.00010777,1.0001148,1.00012159,1.00012839,1.00013518,1.00014174,1.0001483,1.00015461,1.00016093,1.00016701,1.00017309,1.00017893,1.00018466,1.00019026,1.00019574,1.00020099,1.00020623,1.00021124,1.00021613,1.00022078,1.00022531,1.00022972,1.00023389,1.00023794,1.00024176,1.00024545,1.00024891,1.00025225,1.00025535,1.00025833,1.00026107,1.00026357,1.00026596,1.00026822,1.00027013,1.00027204,1.00027359,1.00027502,1.00027621,1.00027728,1.00027812,1.00027883,1.00027919,1.00027955,1.00027955,1.00027943,1.00027919,1.00027859,1.000278,1.00027704,1.00027597,1.00027478,1.00027335,1.00027168,1.00026989,1.00026786,1.00026572,1.00026345,1.00026095,1.00025821,1.00025535,1.00025237,1.00024927,1.00024593,1.00024235,1.00023878,1.00023496,1.00023091,1.00022686,1.00022256,1.00021827,1.00021374,1.00020909,1.00020421,1.00019932,1.00019431,1.00018907,1.00018382,1.00017846,1.00017297,1.00016737,1.00016165,1.00015581,1.00014985,1.00014389,1.00013781,1.00013161,1.00012529,1.00011897,1.00011253,1.0001061,1.00009954,1.00009298,1.00008631,1.00007963,1.00007284,1.00006604,1.00005913,1.00005233,1.00004542,1.0000385,1.00003147,1.00002456,1.00001752,1.00001049,1.00000346,0.999996483,0.99998951,0.999982476,0.999975502,0.999968529,0.999961555,0.999954641,0.999947727,0.999940813,0.999933958,0.999927163,0.999920428,0.999913692,0.999907076,0.99990046,0.999893904,0.999887466,0.999881029,0.999874711,0.999868453,0.999862254,0.999856174,0.999850154,0.999844253,0.999838412,0.99983269,0.999827087,0.999821603,0.999816179,0.999810934,0.999805748,0.999800682,0.999795794,0.999791026,0.999786317,0.999781847,0.999777436,0.999773204,0.999769092,0.999765158,0.999761343,0.999757707,0.99975419,0.999750853,0.999747694,0.999744654,0.999741852,0.99973917,0.999736667,0.999734342,0.999732137,0.99973017,0.999728382,0.999726772,0.999725342,0.99972409,0.999723017,0.999722123,0.999721408,0.999720931,0.999720633,0.999720514,0.999720573,0.999720812,0.999721289,0.999721944,0.999722779,0.999723792,0.999725044,0.999726474,0.999728084,0.999729872,0.999731898,0.999734104,0.999736488,0.999739051,0.999741793,0.999744713,0.999747872,0.999751151,0.999754667,0.999758303,0.999762177,0.999766171,0.999770403,0.999774754,0.999779284,0.999783993,0.999788821,0.999793828,0.999799013,0.999804318,0.999809742,0.999815404,0.999821126,0.999826968,0.999832988,0.999839127,0.999845386,0.999851763,0.99985826,0.999864876,0.999871552,0.999878347,0.999885261,0.999892235,0.999899328,0.99990648,0.999913692,0.999920964,0.999928296,0.999935687,0.999943137,0.999950647,0.999958158,0.999965727,0.999973297,0.999980927,0.999988556,0.999996185,1.00000381,1.00001144,1.00001907,1.0000267,1.00003433,1.00004184,1.00004935,1.00005686,1.00006437,1.00007176,1.00007904,1.00008631,1.00009358,1.00010073,1.00010777,1.0001148,1.00012159,1.00012839,1.00013518,1.00014174,1.0001483,1.00015461,1.00016093,1.00016701,1.00017309,1.00017893,1.00018466,1.00019026,1.00019574,1.00020099,1.00020623,1.00021124,1.00021613,1.00022078,1.00022531,1.00022972,1.00023389,1.00023794,1.00024176,1.00024545,1.00024891,1.00025225,1.00025535,1.00025833,1.00026107,1.00026357,1.00026596,1.00026822,1.00027013,1.00027204,1.00027359,1.00027502,1.00027621,1.00027728,1.00027812,1.00027883,1.00027919,1.00027955,1.00027955,1.00027943,1.00027919,1.00027859,1.000278,1.00027704,1.00027597,1.00027478,1.00027335,1.00027168,1.00026989,1.00026786,1.00026572,1.00026345,1.00026095,1.00025821,1.00025535,1.00025237,1.00024927,1.00024593,1.00024235,1.00023878,1.00023496,1.00023091,1.00022686,1.00022256,1.00021827,1.00021374,1.00020909,1.00020421,1.00019932,1.00019431,1.00018907,1.00018382,1.00017846,1.00017297,1.00016737,1.00016165,1.00015581,1.00014985,1.00014389,1.00013781,1.00013161,1.00012529,1.00011897,1.00011253,1.0001061,1.00009954,1.00009298,1.00008631,1.00007963,1.00007284,1.00006604,1.00005913,1.00005233,1.00004542,1.0000385,1.00003147,1.00002456,1.00001752,1.00001049,1.00000346,0.999996483,0.99998951,0.999982476,0.999975502,0.999968529,0.999961555,0.999954641,0.999947727,0.999940813,0.999933958,0.999927163,0.999920428,0.999913692,0.999907076,0.99990046,0.999893904,0.999887466,0.999881029,0.999874711,0.999868453,0.999862254,0.999856174,0.999850154,0.999844253,0.999838412,0.99983269,0.999827087,0.999821603,0.999816179,0.999810934,0.999805748,0.999800682,0.999795794,0.999791026,0.999786317,0.999781847,0.999777436,0.999773204,0.999769092,0.999765158,0.999761343,0.999757707,0.99975419,0.999750853,0.999747694,0.999744654,0.999741852,0.99973917,0.999736667,0.999734342,0.999732137,0.99973017,0.999728382,0.999726772,0.999725342,0.99972409,0.999723017,0.999722123,0.999721408,0.999720931,0.999720633,0.999720514,0.999720573,0.999720812,0.999721289,0.999721944,0.999722779,0.999723792,0.999725044,0.999726474,0.999728084,0.999729872,0.999731898,0.999734104,0.999736488,0.999739051,0.999741793,0.999744713,0.999747872,0.999751151,0.999754667,0.999758303,0.999762177,0.999766171,0.999770403,0.999774754,0.999779284,0.999783993,0.999788821,0.999793828,0.999799013,0.999804318,0.999809742,0.999815404,0.999821126,0.999826968,0.999832988,0.999839127,0.999845386,0.999851763,0.99985826,0.999864876,0.999871552,0.999878347,0.999885261,0.999892235,0.999899328,0.99990648,0.999913692,0.999920964,0.999928296,0.999935687,0.999943137,0.999950647,0.999958158,0.999965727,0.999973297,0.999980927,0.999988556,0.999996185,1.00000381,1.00001144,1.00001907,1.0000267,1.00003433,1.00004184,1.00004935,1.00005686,1.00006437,1.00007176,1.00007904,1.00008631,1.00009358,1.00010073,1.00010777,1.0001148,1.00012159,1.00012839,1.00013518,1.00014174,1.0001483,1.00015461,1.00016093,1.00016701,1.00017309,1.00017893,1.00018466,1.00019026,1.00019574,1.00020099,1.00020623,1.00021124,1.00021613,1.00022078,1.00022531,1.00022972,1.00023389,1.00023794,1.00024176,1.00024545,1.00024891,1.00025225,1.00025535,1.00025833,1.00026107,1.00026357,1.00026596,1.00026822,1.00027013,1.00027204,1.00027359,1.00027502,1.00027621,1.00027728,1.00027812,1.00027883,1.00027919,1.00027955,1.00027955,1.00027943,1.00027919,1.00027859,1.000278,1.00027704,1.00027597,1.00027478,1.00027335,1.00027168,1.00026989,1.00026786,1.00026572,1.00026345,1.00026095,1.00025821,1.00025535,1.00025237,1.00024927,1.00024593,1.00024235,1.00023878,1.00023496,1.00023091,1.00022686,1.00022256,1.00021827,1.00021374,1.00020909,1.00020421,1.00019932,1.00019431,1.00018907,1.00018382,1.00017846,1.00017297,1.00016737,1.00016165,1.00015581,1.00014985,1.00014389,1.00013781,1.00013161,1.00012529,1.00011897,1.00011253,1.0001061,1.00009954,1.00009298,1.00008631,1.00007963,1.00007284,1.00006604,1.00005913,1.00005233,1.00004542,1.0000385,1.00003147,1.00002456,1.00001752,1.00001049,1.00000346,0.999996483,0.99998951,0.999982476,0.999975502,0.999968529,0.999961555,0.999954641,0.999947727,0.999940813,0.999933958,0.999927163,0.999920428,0.999913692,0.999907076,0.99990046,0.999893904,0.999887466,0.999881029,0.999874711,0.999868453,0.999862254,0.999856174,0.999850154,0.999844253,0.999838412,0.99983269,0.999827087,0.999821603,0.999816179,0.999810934,0.999805748,0.999800682,0.999795794,0.999791026,0.999786317,0.999781847,0.999777436,0.999773204,0.999769092,0.999765158,0.999761343,0.999757707,0.99975419,0.999750853,0.999747694,0.999744654,0.999741852,0.99973917,0.999736667,0.999734342,0.999732137,0.99973017,0.999728382,0.999726772,0.999725342,0.99972409,0.999723017,0.999722123,0.999721408,0.999720931,0.999720633,0.999720514,0.999720573,0.999720812,0.999721289,0.999721944,0.999722779,0.999723792,0.999725044,0.999726474,0.999728084,0.999729872,0.999731898,0.999734104,0.999736488,0.999739051,0.999741793,0.999744713,0.999747872,0.999751151,0.999754667,0.999758303,0.999762177,0.999766171,0.999770403,0.999774754,0.999779284,0.999783993,0.999788821,0.999793828,0.999799013,0.999804318,0.999809742,0.999815404,0.999821126,0.999826968,0.999832988,0.999839127,0.999845386,0.999851763,0.99985826,0.999864876,0.999871552,0.999878347,0.999885261,0.999892235,0.999899328,0.99990648,0.999913692,0.999920964,0.999928296,0.999935687,0.999943137,0.999950647,0.999958158,0.999965727,0.999973297,0.999980927,0.999988556,0.999996185,1.00000381,1.00001132,1.00001884,1.00002635,1.00003362,1.00004077,1.0000478,1.0000546,1.00006104,1.00006711,1.00007272,1.00007772,1.00008214,1.00008571,1.00008833,1.00008976,1.00008988,1.00008845,1.00008512,1.00007975,1.000072,1.00006139,1.00004768,1.00003028,1.00000894,0.999982893,0.999951661,0.999914646,0.999871135,0.999820411,0.999761701,0.999694109,0.999616742,0.999528646,0.999428689,0.999315858,0.99918884,0.999046445,0.99888736,0.998710036,0.998513043,0.998294711,0.998053491,0.997787535,0.997494996,0.997173846,0.996822178,0.996437728,0.996018291,0.99556154,0.995064974,0.994526088,0.993942142,0.993310452,0.992628038,0.991891921,0.991099,0.990245998,0.989329517,0.988346159,0.98729229,0.986164153,0.984957933,0.983669639,0.982295156,0.980830312,0.979270697,0.977612019,0.975849628,0.973978817,0.971994996,0.969893157,0.967668533,0.965315938,0.962830484,0.960206985,0.957440197,0.954525113,0.951456368,0.948228836,0.944837391,0.941276729,0.937541902,0.933627844,0.929529607,0.925242424,0.920761466,0.916082382,0.911200643,0.906112134,0.900812864,0.895299196,0.889567554,0.883614719,0.87743783,0.871034324,0.864401877,0.857538521,0.850442827,0.843113542,0.835549891,0.827751517,0.819718421,0.811451137,0.802950621,0.794218183,0.785255671,0.77606535,0.766650081,0.757013023,0.747157931,0.737088978,0.726810873,0.716328681,0.705648124,0.694775164,0.683716357,0.672478795,0.66106981,0.64949733,0.63776958,0.625895321,0.613883674,0.601744056,0.589486361,0.577120781,0.564657867,0.552108407,0.539483547,0.526794672,0.514053404,0.501271665,0.488461435,0.475634992,0.462804615,0.449982822,0.437182158,0.424415171,0.411694527,0.399032772,0.386442453,0.373936087,0.361525953,0.349224269,0.337043047,0.324994087,0.313088894,0.301338732,0.28975445,0.278346658,0.267125458,0.256100595,0.245281324,0.234676436,0.224294156,0.214142203,0.204227716,0.194557235,0.185136691,0.175971389,0.167065978,0.158424467,0.150050193,0.141945809,0.134113312,0.126554012,0.119268581,0.112257004,0.105518632,0.0990521908,0.0928557739,0.0869268849,0.0812624842,0.0758589506,0.070712164,0.0658175275,0.0611699894,0.0567640625,0.0525939018,0.0486532971,0.0449357443,0.0414344519,0.0381424055,0.0350523964,0.0321570449,0.0294488575,0.0269202497,0.0245635863,0.0223712083,0.0203354694,0.0184487645,0.0167035554,0.0150924018,0.0136079816,0.0122431125,0.0109907771,0.00984413363,0.00879654102,0.00784156192,0.00697298534,0.0061848294,0.00547135156,0.00482705561,0.0042466945,0.00372527563,0.00325805834,0.00284055714,0.002468538,0.00213801605,0.001845252,0.00158674677,0.00135923503,0.00115967961,0.000985263032,0.000833379803,0.00070162816,0.000587800692,0.0004898755,0.000406006613,0.000334514218,0.000273875427,0.000222714254,0.000179792376,0.000143999539,0.000114344395,8.99455481e-05,7.00227974e-05,5.38887325e-05,4.09407221e-05,3.06531692e-05,2.25702297e-05,1.62988836e-05,1.15024377e-05,7.89443584e-06,5.23298331e-06,3.31548563e-06,1.97379018e-06,1.06971811e-06,4.90905393e-07,1.46209757e-07,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}};
static const int WIN_LEN[28] = {40,80,120,160,240,240,480,80,160,240,320,480,480,960,120,240,360,480,720,1,1,160,320,480,640,960,960,1920};
static const double LFCB[32][8] = {{2.26283366,0.813311269,-0.530193495,-1.35664836,-1.59952177,-1.44098768,-1.14381648,-0.755203768},{2.94516479,2.41143318,0.960455106,-0.443226488,-1.22913612,-1.55590039,-1.49688656,-1.11689987},{-2.18610707,-1.97152136,-1.7871862,-1.91865896,-1.79399122,-1.35738404,-0.705444279,-0.0478172945},{0.693688237,0.955609857,0.575230787,-0.114603419,-0.646050637,-0.95235137,-1.07405247,-0.758087707},{-1.29752132,-0.740369057,-0.345372484,-0.313285696,-0.402977243,-0.372020853,-0.0783414177,0.0970441304},{0.914652038,1.74293043,1.90906627,1.54408484,1.09344961,0.64747955,0.0361790752,-0.297092807},{-2.51428813,-2.89175271,-2.00450667,-0.750912274,0.441202105,1.20190988,1.32742857,1.22049081},{-0.922188405,0.632495141,1.08736431,0.608628625,0.131174568,-0.296149158,-0.207013517,0.134924917},{0.790322288,0.628401262,0.393117924,0.480007711,0.447815138,0.209734215,0.00656691996,-0.0861242342},{1.4477558,2.72399952,2.31083269,0.93505127,-0.274743911,-0.902077697,-0.940681512,-0.633697039},{0.793354526,0.0143931186,-0.567834845,-0.654760468,-0.479458998,-0.173894662,0.0680162706,0.295125948},{2.72425347,2.95947572,1.84953559,0.563284922,0.139917088,0.359641093,0.689461355,0.639790177},{-0.530830198,-0.212690683,0.00576613628,0.424871484,0.473128952,0.858894199,1.19111161,0.99618967},{1.68728411,2.43614509,2.33019429,1.77983778,1.44411295,1.51995177,1.47199394,0.977682474},{-2.95183273,-1.59393497,-0.109918773,0.388609073,0.51293265,0.628112597,0.822621796,0.875891425},{0.101878343,0.589857324,0.619047647,1.26731314,2.41961048,2.25174253,0.526537031,-0.396591513},{2.68254575,1.32738011,0.130185274,-0.338533089,-0.368219236,-0.191689947,-0.154782377,-0.234207178},{4.82697924,3.11947804,1.39513671,0.250295316,-0.393613839,-0.643458173,-0.642570737,-0.723193223},{0.0878419936,-0.56958684,-1.14506016,-1.66968488,-1.84534418,-1.56468027,-1.11746759,-0.533981663},{1.39102308,1.98146479,1.11265796,-0.220107509,-0.774965612,-0.594063874,0.136937681,0.818242891},{0.384585894,-0.160588786,-0.53936681,-0.529309079,0.190433547,2.56062918,2.81896398,0.656670876},{1.93227399,3.0103018,3.06543894,2.50110161,1.93089593,0.572153811,-0.811741794,-1.17641811},{0.175080463,-0.750522832,-1.03943893,-1.13577509,-1.04197904,-0.0152060099,2.07048392,3.42948918},{-1.1881702,0.366792874,1.3095783,1.68330687,1.25100924,0.942375752,0.826250483,0.439952741},{2.53322203,2.11274643,1.26288412,0.761513512,0.522117938,0.11868007,-0.452346828,-0.700352426},{3.99889837,4.07901751,2.82285661,1.72607213,0.647144377,-0.331148521,-0.884042571,-1.12697341},{0.507902593,1.5883845,1.72899024,1.0069223,0.377121232,0.476370767,1.0875474,1.08756266},{3.16856825,3.25853458,2.42230591,1.79446078,1.52177911,1.17196707,0.489394597,-0.0622795716},{1.89414767,1.25108695,0.590451211,0.608358583,0.87817101,1.11912511,1.01857662,0.620453891},{0.948880605,2.13239439,2.7234535,2.76986077,2.54286973,2.02046264,0.830045859,-0.0275569174},{-1.88026757,-1.26431073,0.311424977,1.8367021,2.25634192,2.04818998,2.19526837,2.02659614},{0.246375746,0.955621773,1.52046777,1.976474,1.94043867,2.23375847,1.98835978,1.27232673}};
static const double HFCB[32][8] = {{0.232028419,-1.00890271,-2.14223503,-2.37533814,-2.23041933,-2.17595881,-2.29065914,-2.53286398},{-1.29503937,-1.79929965,-1.88703148,-1.8099166,-1.76340038,-1.83418428,-1.80480981,-1.73679545},{0.139285716,-0.258185126,-0.650804573,-1.06815732,-1.61928742,-2.18762566,-2.63757587,-2.9789775},{-0.316513102,-0.477747657,-0.551162076,-0.484788283,-0.238388394,-0.143024507,0.0683186674,0.0883061717},{0.879518405,0.298340096,-0.915386396,-2.20645975,-2.74142181,-2.86139074,-2.88841597,-2.95182608},{-0.296701922,-0.975004919,-1.358575,-0.983721106,-0.652956939,-0.989986993,-1.61467225,-2.40712302},{0.3409811,0.268899789,0.0563335685,0.0499114047,-0.0954130727,-0.760166146,-2.3275812,-3.77155485},{-1.41229759,-1.48522119,-1.1860358,-0.625001634,0.153902497,0.576386498,0.795092604,0.596564632},{-0.228839512,-0.33371907,-0.809321359,-1.63587877,-1.88486397,-1.64496691,-1.40515778,-1.46666471},{-1.07148629,-1.41767015,-1.54891762,-1.45296062,-1.0318297,-0.69064264,-0.428843805,-0.494960215},{-0.590988511,-0.0711737759,0.345719523,0.300549461,-1.11865218,-2.44089151,-2.22854732,-1.89509228},{-0.848434099,-0.583226811,0.0900423688,0.845025008,1.06572385,0.737582999,0.256590452,-0.49196336},{1.14069146,0.964016892,0.381461206,-0.482849341,-1.81632721,-2.80279513,-3.23385725,-3.45908714},{-0.376283238,0.0425675462,0.516547697,0.251716882,-0.216179968,-0.534074091,-0.640786096,-0.869745032},{0.665004121,1.09790765,1.38342667,1.34327359,0.822978837,0.215876799,-0.404925753,-1.07025606},{-0.826265954,-0.671181233,-0.228495593,0.518980853,1.36721896,2.18023038,2.53596093,2.20121099},{1.41008327,0.754441908,-1.30550585,-1.87133711,-1.24008685,-1.26712925,-2.03670813,-2.89685162},{0.361386818,-0.0219991705,-0.579368834,-0.879427961,-0.850685023,-0.77939705,-0.732182927,-0.888348515},{0.437469239,0.30544042,-0.00738786566,-0.495649855,-0.806651271,-1.22431892,-1.7015777,-2.24491914},{0.648100319,0.682299134,0.253247464,0.0735842144,0.314216709,0.234729881,0.144600134,-0.0682120179},{1.11919833,1.23465533,0.589170238,-1.3719246,-2.37095707,-2.00779783,-1.6668854,-1.92631846},{0.141847497,-0.110660071,-0.282824593,-0.00659813475,0.28592928,0.046044553,-0.602596416,-2.26568729},{0.504046955,0.826982163,1.11981236,1.17914044,1.07987429,0.697536239,-0.912548817,-3.57684747},{-0.50107605,-0.325678006,0.0280798195,0.262054555,0.360590806,0.635623722,0.959012467,1.30745157},{3.74970983,1.52342612,-0.457715662,-0.798711008,-0.386819329,-0.375901062,-0.6578369,-1.28163964},{-1.15258991,-1.10800886,-0.562615117,-0.220562124,-0.34984288,-0.75343277,-0.988596593,-1.28790472},{1.02827246,1.09770519,0.768645546,0.206081978,-0.342805735,-0.754939405,-1.04196178,-1.50335653},{0.128831972,0.689439395,1.12346905,1.30934523,1.35511965,1.42311381,1.15706449,0.406319438},{1.3403303,1.38996825,1.04467922,0.635822746,-0.274733756,-1.54923372,-2.4423971,-3.02457607},{2.13843105,4.24711267,2.8973411,0.932730658,-0.29282225,-0.810404297,-0.788868099,-0.935353149},{0.564830487,1.59184978,2.39771699,3.03697344,2.6642435,1.39304485,0.403834024,-0.656270971},{-0.422460548,0.326149625,1.39171313,2.23146615,2.61179442,2.6654034,2.40103554,1.7592038}};
static const double VQG[4][8] = {{2.176513672,2.942871094,0,0,0,0,0,0},{1.524658203,3.672607422,4.360595703,5.130371094,0,0,0,0},{1.733154297,2.229492188,2.747314453,3.615234375,0,0,0,0},{1.05859375,1.237060547,1.439208984,1.989501953,2.498779297,3.131103516,4.118164062,4.854003906}};
static const int VQG_LEN[4] = {2,4,4,8};
static const int MPVQ[16][11] = {{0,1,1,1,1,1,1,1,1,1,1},{0,1,3,5,7,9,11,13,15,17,19},{0,1,5,13,25,41,61,85,113,145,181},{0,1,7,25,63,129,231,377,575,833,1159},{0,1,9,41,129,321,681,1289,2241,3649,5641},{0,1,11,61,231,681,1683,3653,7183,13073,22363},{0,1,13,85,377,1289,3653,8989,19825,40081,75517},{0,1,15,113,575,2241,7183,19825,48639,108545,224143},{0,1,17,145,833,3649,13073,40081,108545,265729,598417},{0,1,19,181,1159,5641,22363,75517,224143,598417,1462563},{0,1,21,221,1561,8361,36365,134245,433905,1256465,3317445},{0,1,23,265,2047,11969,56695,227305,795455,2485825,7059735},{0,1,25,313,2625,16641,85305,369305,1392065,4673345,14218905},{0,1,27,365,3303,22569,124515,579125,2340495,8405905,27298155},{0,1,29,421,4089,29961,177045,880685,3800305,14546705,50250765},{0,1,31,481,4991,39041,246047,1303777,5984767,24331777,89129247}};
static const int TNS_ORDER_BITS[2][9] = {{0,17234,13988,11216,8694,6566,4977,3961,3040},{0,12683,9437,6874,5541,5121,5170,5359,5056}};
static const int TNS_ORDER_FREQ[2][8] = {{3,9,23,54,111,190,268,366},{14,42,100,157,181,178,167,185}};
static const int TNS_ORDER_CUMFREQ[2][8] = {{0,3,12,35,89,200,390,658},{0,14,56,156,313,494,672,839}};
static const int TNS_COEF_BITS[8][17] = {{20480,15725,12479,10334,8694,7320,6964,6335,5504,5637,6566,6758,8433,11348,15186,20480,20480},{20480,20480,20480,20480,12902,9368,7057,5901,5254,5485,5598,6076,7608,10742,15186,20480,20480},{20480,20480,20480,20480,13988,9368,6702,4841,4585,4682,5859,7764,12109,20480,20480,20480,20480},{20480,20480,20480,20480,18432,13396,8982,4767,3779,3658,6335,9656,13988,20480,20480,20480,20480},{20480,20480,20480,20480,20480,14731,9437,4275,3249,3493,8483,13988,17234,20480,20480,20480,20480},{20480,20480,20480,20480,20480,20480,12902,4753,3040,2953,9105,15725,20480,20480,20480,20480,20480},{20480,20480,20480,20480,20480,20480,12902,3821,3346,3000,12109,20480,20480,20480,20480,20480,20480},{20480,20480,20480,20480,20480,20480,15725,3658,20480,1201,10854,18432,20480,20480,20480,20480,20480}};
static const int TNS_COEF_FREQ[8][17] = {{1,5,15,31,54,86,97,120,159,152,111,104,59,22,6,1,1},{1,1,1,1,13,43,94,139,173,160,154,131,78,27,6,1,1},{1,1,1,1,9,43,106,199,217,210,141,74,17,1,1,1,1},{1,1,1,1,2,11,49,204,285,297,120,39,9,1,1,1,1},{1,1,1,1,1,7,42,241,341,314,58,9,3,1,1,1,1},{1,1,1,1,1,1,13,205,366,377,47,5,1,1,1,1,1},{1,1,1,1,1,1,13,281,330,371,17,1,1,1,1,1,1},{1,1,1,1,1,1,5,297,1,682,26,2,1,1,1,1,1}};
static const int TNS_COEF_CUMFREQ[8][17] = {{0,1,6,21,52,106,192,289,409,568,720,831,935,994,1016,1022,1023},{0,1,2,3,4,17,60,154,293,466,626,780,911,989,1016,1022,1023},{0,1,2,3,4,13,56,162,361,578,788,929,1003,1020,1021,1022,1023},{0,1,2,3,4,6,17,66,270,555,852,972,1011,1020,1021,1022,1023},{0,1,2,3,4,5,12,54,295,636,950,1008,1017,1020,1021,1022,1023},{0,1,2,3,4,5,6,19,224,590,967,1014,1019,1020,1021,1022,1023},{0,1,2,3,4,5,6,19,300,630,1001,1018,1019,1020,1021,1022,1023},{0,1,2,3,4,5,6,11,308,309,991,1017,1019,1020,1021,1022,1023}};
static const int AC_SPEC_LOOKUP[4096] = {1,39,7,25,22,22,28,22,22,22,22,28,28,28,34,31,31,40,43,46,49,52,14,17,36,36,36,38,0,57,38,22,0,8,9,11,47,14,14,17,36,36,36,38,59,59,38,22,22,26,46,29,30,32,33,35,36,36,36,38,0,59,23,22,46,46,45,47,48,50,50,18,54,54,54,38,59,59,59,22,0,62,63,3,33,2,2,61,20,20,20,21,59,59,39,28,28,63,63,3,33,2,2,61,38,38,38,21,59,59,39,28,28,6,6,6,2,18,61,20,21,21,21,59,39,39,7,34,34,34,34,34,34,34,34,34,34,34,34,34,34,34,34,34,34,51,51,51,53,54,20,38,38,57,39,39,39,7,24,34,4,4,4,4,4,4,4,4,4,4,4,4,4,4,4,4,4,4,4,4,4,56,38,57,57,59,7,7,7,42,42,34,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,5,4,4,5,21,21,59,7,7,7,7,25,25,25,34,4,4,4,4,5,23,23,39,7,7,7,42,25,25,22,31,31,39,39,39,39,7,7,42,0,25,22,22,22,28,34,31,55,55,55,55,55,55,55,55,55,55,55,55,55,55,55,55,55,55,40,8,9,49,49,52,17,17,17,4,0,20,17,60,40,40,8,43,27,49,49,14,17,17,17,36,42,42,17,57,57,40,8,26,27,49,12,14,17,17,17,36,0,38,36,1,8,8,43,9,11,49,12,14,14,33,50,50,50,61,36,39,8,8,43,46,49,52,30,14,14,33,50,50,50,50,18,25,8,8,43,46,49,52,30,14,14,18,5,5,5,61,18,23,43,43,43,9,49,52,3,14,14,50,50,50,50,61,17,24,43,43,43,43,43,43,43,43,43,43,43,43,43,43,43,43,43,43,43,9,11,52,52,14,14,17,61,61,61,54,17,39,45,45,45,45,45,45,45,45,45,45,45,45,45,45,45,45,45,45,44,27,29,52,48,52,52,17,17,17,17,2,17,7,27,27,27,27,27,27,27,27,27,27,27,27,27,27,27,27,27,27,9,27,27,12,52,14,14,58,41,41,41,6,17,37,9,9,9,27,11,49,12,52,14,14,14,50,0,53,17,28,52,52,49,52,12,52,30,14,14,17,2,2,2,38,38,34,31,34,34,31,31,31,31,19,19,19,19,19,19,19,31,19,44,44,62,30,32,58,35,36,36,38,0,59,7,7,39,34,34,45,47,48,33,35,35,36,38,38,38,59,7,7,39,34,34,62,30,15,50,53,53,54,21,21,21,59,7,7,7,34,30,30,48,33,58,18,18,56,23,23,23,59,7,7,24,34,34,6,6,58,53,54,54,21,59,59,59,39,7,7,42,34,6,6,33,58,53,54,61,21,59,59,59,39,7,7,42,34,34,51,51,53,54,56,56,57,39,39,39,7,42,42,25,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,4,4,4,5,23,23,39,7,7,7,42,25,25,22,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,5,5,5,5,57,57,39,24,24,24,42,22,22,28,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,41,41,41,41,39,39,7,42,42,42,25,28,28,28,31,31,41,41,41,41,39,39,24,25,25,25,22,28,28,34,31,31,10,10,10,10,10,10,28,34,34,34,34,34,34,31,19,8,8,8,8,8,8,8,8,8,8,8,8,8,8,8,8,8,8,9,11,47,32,50,18,18,20,21,21,21,39,59,34,26,26,27,29,30,33,50,18,18,20,57,57,57,59,59,34,27,27,11,12,48,50,58,61,61,56,57,57,57,59,39,34,45,45,12,30,32,2,2,61,38,38,38,57,0,59,39,34,63,63,3,32,58,18,18,20,21,21,21,59,39,39,7,31,31,3,3,33,58,18,18,20,21,21,21,59,7,7,7,31,6,6,51,51,53,54,54,38,57,57,57,39,7,7,42,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,51,53,53,54,56,56,57,59,59,59,7,24,24,25,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,4,4,4,54,21,21,57,39,39,39,7,42,42,22,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,5,5,5,5,23,23,59,7,7,7,42,22,22,28,31,31,4,4,4,5,23,23,39,24,24,24,25,28,28,34,31,31,10,10,10,10,10,10,28,34,34,34,31,31,31,31,19,13,13,13,13,13,13,13,13,60,60,60,60,60,60,60,16,16,0,0,0,0,0,0,0,0,0,0,0,0,0,13,60,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,60,60,0,0,0,0,0,0,0,0,0,0,0,13,13,13,60,60,0,0,0,0,0,0,0,0,0,0,0,13,13,13,60,60,0,0,0,0,0,0,0,0,0,13,13,13,13,13,60,60,0,0,0,0,0,0,0,0,0,13,13,13,13,13,60,60,0,0,0,0,0,0,0,0,0,13,13,13,13,13,60,60,60,60,60,60,60,60,60,60,60,60,60,60,60,60,60,60,0,0,0,0,0,0,0,0,0,13,13,13,13,13,60,60,60,60,60,60,60,60,60,60,60,60,60,60,60,60,60,60,0,0,0,0,0,0,0,13,13,13,13,13,13,13,60,60,60,60,60,60,60,60,60,60,60,60,60,60,60,60,60,60,0,0,0,0,0,0,13,13,13,13,13,13,13,13,60,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,60,60,60,60,60,60,60,60,60,60,60,60,60,60,60,60,16,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,13,13,0,13,0,0,0,0,0,0,0,0,0,0,0,0,13,13,0,60,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,60,60,0,0,0,0,0,0,0,0,0,0,0,0,0,13,60,60,0,0,0,0,0,0,0,0,0,0,0,13,13,13,60,60,0,0,0,0,0,0,0,0,0,0,0,0,13,13,13,13,0,0,0,0,0,0,0,0,0,13,13,13,0,13,60,60,60,60,60,60,60,60,60,60,60,60,60,60,60,60,60,60,0,0,0,0,0,0,0,0,0,13,13,13,0,0,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,60,0,0,16,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,16,16,16,16,16,16,16,16,16,16,16,16,16,16,16,37,0,0,0,0,0,0,0,0,0,13,13,13,13,13,13,60,0,0,0,0,0,0,0,0,13,13,13,13,13,13,13,60,0,0,0,0,0,0,0,13,13,13,13,13,13,13,13,60,0,0,0,0,0,0,0,13,13,13,13,13,13,13,13,60,0,0,0,0,0,0,0,13,13,13,13,13,13,13,60,16,0,0,0,0,0,0,0,13,13,13,13,13,13,13,60,16,0,0,0,0,0,13,13,13,13,13,13,13,13,13,60,16,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,13,13,13,13,13,13,13,13,13,60,16,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,60,60,16,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,60,60,16,13,13,13,13,13,13,13,13,60,60,60,60,60,60,60,16,60,60,60,60,60,60,60,60,60,60,16,16,16,16,16,37,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,13,13,16,0,0,0,0,0,0,0,0,0,0,0,13,13,13,13,16,0,0,0,0,0,0,0,0,0,0,13,13,13,13,13,16,0,0,0,0,0,0,0,0,0,0,13,13,13,13,13,16,0,0,0,0,0,0,0,0,0,0,13,13,13,13,13,16,0,0,0,0,0,0,0,0,0,0,13,13,13,13,13,16,0,0,0,0,0,0,0,0,13,13,13,13,13,13,60,16,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,13,13,13,13,13,13,60,16,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,0,13,13,13,13,13,13,13,60,16,16,16,16,16,16,16,16,16,16,16,16,16,16,16,16,16,16,0,0,0,13,13,13,13,13,13,13,13,60,60,60,16,13,13,13,13,13,13,13,13,60,60,60,60,60,60,16,16,16,16,16,16,16,16,16,16,16,16,16,16,16,16,16,37,0,0,0,0,0,0,0,0,0,0,0,0,0,13,13,13,13,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,13,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,0,0,0,0,0,0,0,0,0,0,0,0,0,0,60,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,13,0,0,0,0,0,0,0,0,0,0,0,13,13,0,0,0,0,0,0,0,0,0,0,13,13,13,0,13,13,0,0,0,0,0,0,0,0,0,0,13,13,13,13,13,0,13,13,13,0,0,0,0,0,0,0,0,60,0,0,0,0,13,60,0,0,0,0,0,0,0,0,0,0,13,13,13,0,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,0,19,0,0,0,0,0,0,0,0,0,0,0,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,0,0,0,0,0,0,0,0,19,13,13,13,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,19,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,13,13,13,0,0,0,0,0,0,0,0,0,0,0,0,0,60,13,13,13,13,13,13,60,60,60,60,60,60,60,60,16,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,13,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,13,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,13,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,13,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,13,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,13,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,0,0,0,0,0,0,0,0,0,0,0,0,0,0,60,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,60,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,60,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,60,13,13,13,13,13,13,13,13,13,13,13,13,60,60,60,16,16,16,16,16,16,16,16,16,16,16,16,16,16,16,16,16,16,0,0,0,0,0,0,0,0,0,0,0,0,0,0,60,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,60,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,60,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,60,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,60,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,60,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,60,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,60,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,13,13,60,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,13,13,13,13,60,0,0,0,0,0,0,0,13,13,13,13,13,13,13,13,60,13,13,13,13,13,60,60,60,60,60,60,60,60,60,60,60,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,13,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,13,13,13,13,0,0,0,0,0,13,13,13,13,0,0,13,13,13,13,13,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,0,0,0,0,0,0,0,13,13,13,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,0,0,0,0,0,0,0,0,0,0,0,0,0,13,60,60,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,13,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0};
static const int AC_SPEC_BITS[64][17] = {{20480,20480,5220,9042,20480,20480,6619,9892,5289,6619,9105,11629,8982,9892,11629,13677,4977},{11940,10854,12109,13677,10742,9812,11090,12288,11348,10240,11348,12683,12109,10854,11629,12902,1197},{7886,7120,8982,10970,7496,6815,8334,10150,9437,8535,9656,11216,11348,10431,11348,12479,4051},{5485,6099,9168,11940,6311,6262,8640,11090,9233,8640,10334,12479,11781,11090,12479,13988,6009},{7886,7804,10150,11940,7886,7685,9368,10854,10061,9300,10431,11629,11629,10742,11485,12479,2763},{9042,8383,10240,11781,8483,8013,9437,10742,10334,9437,10431,11485,11781,10742,11485,12288,2346},{5922,6619,9368,11940,6566,6539,8750,10970,9168,8640,10240,12109,11485,10742,11940,13396,5009},{12288,11090,11348,12109,11090,9892,10334,10970,11629,10431,10970,11629,12479,11348,11781,12288,1289},{1685,5676,13138,18432,5598,7804,13677,18432,12683,13396,17234,20480,17234,17234,20480,20480,15725},{2793,5072,10970,15725,5204,6487,11216,15186,10970,11216,14336,17234,15186,15186,17234,18432,12109},{12902,11485,11940,13396,11629,10531,11348,12479,12683,11629,12288,13138,13677,12683,13138,13677,854},{3821,5088,9812,13988,5289,5901,9812,13677,9976,9892,12479,15186,13988,13677,15186,17234,9812},{4856,5412,9168,12902,5598,5736,8863,12288,9368,8982,11090,13677,12902,12288,13677,15725,8147},{20480,20480,7088,9300,20480,20480,7844,9733,7320,7928,9368,10970,9581,9892,10970,12288,2550},{6031,5859,8192,10635,6410,6286,8433,10742,9656,9042,10531,12479,12479,11629,12902,14336,5756},{6144,6215,8982,11940,6262,6009,8433,11216,8982,8433,10240,12479,11781,11090,12479,13988,5817},{20480,20480,11216,12109,20480,20480,11216,11940,11629,11485,11940,12479,12479,12109,12683,13138,704},{7928,6994,8239,9733,7218,6539,8147,9892,9812,9105,10240,11629,12109,11216,12109,13138,4167},{8640,7724,9233,10970,8013,7185,8483,10150,9656,8694,9656,10970,11348,10334,11090,12288,3391},{20480,18432,18432,18432,18432,18432,18432,18432,18432,18432,18432,18432,18432,18432,18432,18432,91},{10061,8863,9733,11090,8982,7970,8806,9976,10061,9105,9812,10742,11485,10334,10970,11781,2557},{10431,9368,10240,11348,9368,8433,9233,10334,10431,9437,10061,10970,11781,10635,11216,11940,2119},{13988,12479,12683,12902,12683,11348,11485,11940,12902,11629,11940,12288,13396,12109,12479,12683,828},{10431,9300,10334,11629,9508,8483,9437,10635,10635,9656,10431,11348,11940,10854,11485,12288,1946},{12479,11216,11629,12479,11348,10150,10635,11348,11940,10854,11216,11940,12902,11629,11940,12479,1146},{13396,12109,12288,12902,12109,10854,11216,11781,12479,11348,11629,12109,13138,11940,12288,12683,928},{2443,5289,11629,16384,5170,6730,11940,16384,11216,11629,14731,18432,15725,15725,18432,20480,13396},{3328,5009,10531,15186,5040,6031,10531,14731,10431,10431,13396,16384,15186,14731,16384,18432,11629},{14336,12902,12902,13396,12902,11629,11940,12288,13138,12109,12288,12902,13677,12683,12902,13138,711},{4300,5204,9437,13396,5430,5776,9300,12902,9656,9437,11781,14731,13396,12902,14731,16384,8982},{5394,5776,8982,12288,5922,5901,8640,11629,9105,8694,10635,13138,12288,11629,13138,14731,6844},{17234,15725,15725,15725,15725,14731,14731,14731,16384,14731,14731,15186,16384,15186,15186,15186,272},{6461,6286,8806,11348,6566,6215,8334,10742,9233,8535,10061,12109,11781,10970,12109,13677,5394},{6674,6487,8863,11485,6702,6286,8334,10635,9168,8483,9976,11940,11629,10854,11940,13396,5105},{15186,13677,13677,13988,13677,12479,12479,12683,13988,12683,12902,13138,14336,13138,13396,13677,565},{7844,7252,8922,10854,7389,6815,8383,10240,9508,8750,9892,11485,11629,10742,11629,12902,3842},{9233,8239,9233,10431,8334,7424,8483,9892,10061,9105,10061,11216,11781,10742,11485,12479,2906},{20480,20480,14731,14731,20480,20480,14336,14336,15186,14336,14731,14731,15186,14731,14731,15186,266},{10531,9300,9976,11090,9437,8286,9042,10061,10431,9368,9976,10854,11781,10531,11090,11781,2233},{11629,10334,10970,12109,10431,9368,10061,10970,11348,10240,10854,11485,12288,11216,11629,12288,1469},{952,6787,15725,20480,6646,9733,16384,20480,14731,15725,18432,20480,18432,20480,20480,20480,18432},{9437,8806,10742,12288,8982,8483,9892,11216,10742,9892,10854,11940,12109,11090,11781,12683,1891},{12902,11629,11940,12479,11781,10531,10854,11485,12109,10970,11348,11940,12902,11781,12109,12479,1054},{2113,5323,11781,16384,5579,7252,12288,16384,11781,12288,15186,18432,15725,16384,18432,20480,12902},{2463,5965,11348,15186,5522,6934,11216,14731,10334,10635,13677,16384,13988,13988,15725,18432,10334},{3779,5541,9812,13677,5467,6122,9656,13138,9581,9437,11940,14731,13138,12683,14336,16384,8982},{3181,5154,10150,14336,5448,6311,10334,13988,10334,10431,13138,15725,14336,13988,15725,18432,10431},{4841,5560,9105,12479,5756,5944,8922,12109,9300,8982,11090,13677,12479,12109,13677,15186,7460},{5859,6009,8922,11940,6144,5987,8483,11348,9042,8535,10334,12683,11940,11216,12683,14336,6215},{4250,4916,8587,12109,5901,6191,9233,12288,10150,9892,11940,14336,13677,13138,14731,16384,8383},{7153,6702,8863,11216,6904,6410,8239,10431,9233,8433,9812,11629,11629,10742,11781,13138,4753},{6674,7057,9508,11629,7120,6964,8806,10635,9437,8750,10061,11629,11485,10531,11485,12683,4062},{5341,5289,8013,10970,6311,6262,8640,11090,10061,9508,11090,13138,12902,12288,13396,15186,6539},{8057,7533,9300,11216,7685,7057,8535,10334,9508,8694,9812,11216,11485,10431,11348,12479,3541},{9168,8239,9656,11216,8483,7608,8806,10240,9892,8982,9812,11090,11485,10431,11090,12109,2815},{558,7928,18432,20480,7724,12288,20480,20480,18432,20480,20480,20480,20480,20480,20480,20480,20480},{9892,8806,9976,11348,9042,8057,9042,10240,10240,9233,9976,11090,11629,10531,11216,12109,2371},{11090,9812,10531,11629,9976,8863,9508,10531,10854,9733,10334,11090,11940,10742,11216,11940,1821},{7354,6964,9042,11216,7153,6592,8334,10431,9233,8483,9812,11485,11485,10531,11629,12902,4349},{11348,10150,10742,11629,10150,9042,9656,10431,10854,9812,10431,11216,12109,10970,11485,12109,1700},{20480,20480,8694,10150,20480,20480,8982,10240,8982,9105,9976,10970,10431,10431,11090,11940,1610},{9233,8192,9368,10970,8286,7496,8587,9976,9812,8863,9733,10854,11348,10334,11090,11940,3040},{4202,5716,9733,13138,5598,6099,9437,12683,9300,9168,11485,13988,12479,12109,13988,15725,7804},{4400,5965,9508,12479,6009,6360,9105,11781,9300,8982,10970,13138,12109,11629,13138,14731,6994}};
static const int AC_SPEC_FREQ[64][17] = {{1,1,175,48,1,1,109,36,171,109,47,20,49,36,20,10,190},{18,26,17,10,27,37,24,16,22,32,22,14,17,26,20,13,683},{71,92,49,25,81,102,61,33,42,57,39,23,22,30,22,15,260},{160,130,46,18,121,123,55,24,45,55,31,15,19,24,15,9,134},{71,73,33,18,71,76,43,26,34,44,30,20,20,27,21,15,402},{48,60,32,19,58,68,42,27,31,42,30,21,19,27,21,16,463},{138,109,43,18,111,112,53,25,46,55,32,17,21,27,18,11,188},{16,24,22,17,24,36,31,25,20,30,25,20,15,22,19,16,662},{579,150,12,2,154,73,10,2,14,11,3,1,3,3,1,1,5},{398,184,25,5,176,114,23,6,25,23,8,3,6,6,3,2,17},{13,21,18,11,20,29,22,15,14,20,16,12,10,14,12,10,767},{281,183,37,9,171,139,37,10,35,36,15,6,9,10,6,3,37},{198,164,46,13,154,147,51,16,43,49,24,10,13,16,10,5,65},{1,1,93,44,1,1,72,38,86,70,43,25,40,36,25,16,432},{133,141,64,28,117,122,59,27,39,48,29,15,15,20,13,8,146},{128,125,49,18,123,134,59,23,49,59,32,15,19,24,15,9,143},{1,1,23,17,1,1,23,18,20,21,18,15,15,17,14,12,807},{70,96,63,38,89,112,65,36,37,47,32,20,17,23,17,12,250},{55,75,45,25,68,90,58,33,39,54,39,25,22,31,24,16,325},{1,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,993},{34,51,38,24,49,69,52,35,34,47,37,27,21,31,25,19,431},{30,43,32,22,43,59,45,31,30,42,34,25,19,28,23,18,500},{9,15,14,13,14,22,21,18,13,20,18,16,11,17,15,14,774},{30,44,31,20,41,58,42,28,28,39,30,22,18,26,21,16,530},{15,23,20,15,22,33,28,22,18,26,23,18,13,20,18,15,695},{11,17,16,13,17,26,23,19,15,22,20,17,12,18,16,14,748},{448,171,20,4,178,105,18,4,23,20,7,2,5,5,2,1,11},{332,188,29,6,186,133,29,7,30,30,11,4,6,7,4,2,20},{8,13,13,11,13,20,18,16,12,17,16,13,10,14,13,12,805},{239,176,42,11,163,145,44,13,39,42,19,7,11,13,7,4,49},{165,145,49,16,138,139,55,20,47,54,28,12,16,20,12,7,101},{3,5,5,5,5,7,7,7,4,7,7,6,4,6,6,6,934},{115,122,52,22,111,125,61,27,45,57,34,17,19,25,17,10,165},{107,114,51,21,106,122,61,28,46,58,35,18,20,26,18,11,182},{6,10,10,9,10,15,15,14,9,14,13,12,8,12,11,10,846},{72,88,50,26,84,102,60,32,41,53,36,21,20,27,20,13,279},{45,63,45,30,61,83,58,36,34,47,34,23,19,27,21,15,383},{1,1,7,7,1,1,8,8,6,8,7,7,6,7,7,6,936},{29,44,35,24,42,62,48,34,30,43,35,26,19,29,24,19,481},{20,31,25,17,30,43,34,25,22,32,26,21,16,23,20,16,623},{742,103,5,1,108,38,4,1,7,5,2,1,2,1,1,1,2},{42,52,27,16,49,58,36,23,27,36,26,18,17,24,19,14,540},{13,20,18,15,19,29,26,21,17,25,22,18,13,19,17,15,717},{501,169,19,4,155,88,16,4,19,16,6,2,5,4,2,1,13},{445,136,22,6,158,98,23,7,31,28,10,4,9,9,5,2,31},{285,157,37,10,161,129,39,12,40,42,18,7,12,14,8,4,49},{349,179,33,8,162,121,31,9,31,30,12,5,8,9,5,2,30},{199,156,47,15,146,137,50,17,44,49,24,10,15,17,10,6,82},{141,134,50,18,128,135,58,22,48,57,31,14,18,23,14,8,125},{243,194,56,17,139,126,45,16,33,36,18,8,10,12,7,4,60},{91,106,51,23,99,117,63,30,45,59,37,20,20,27,19,12,205},{107,94,41,20,92,97,52,28,42,53,34,20,21,29,21,14,259},{168,171,68,25,121,123,55,24,34,41,24,12,13,16,11,6,112},{67,80,44,23,76,94,57,31,41,54,37,23,21,30,22,15,309},{46,63,39,23,58,78,52,32,36,49,37,24,21,30,24,17,395},{848,70,2,1,75,16,1,1,2,1,1,1,1,1,1,1,1},{36,52,35,22,48,67,48,32,32,45,35,24,20,29,23,17,459},{24,37,29,20,35,51,41,29,26,38,31,24,18,27,23,18,553},{85,97,48,23,91,110,61,30,45,58,37,21,21,29,20,13,235},{22,33,27,20,33,48,39,30,26,37,30,23,17,25,21,17,576},{1,1,54,33,1,1,49,32,49,47,35,25,30,30,24,18,594},{45,64,43,25,62,81,56,35,37,51,38,26,22,31,24,18,366},{247,148,38,12,154,130,42,14,44,46,21,9,15,17,9,5,73},{231,136,41,15,134,119,47,19,44,49,25,12,17,20,12,7,96}};
static const int AC_SPEC_CUMFREQ[64][17] = {{0,1,2,177,225,226,227,336,372,543,652,699,719,768,804,824,834},{0,18,44,61,71,98,135,159,175,197,229,251,265,282,308,328,341},{0,71,163,212,237,318,420,481,514,556,613,652,675,697,727,749,764},{0,160,290,336,354,475,598,653,677,722,777,808,823,842,866,881,890},{0,71,144,177,195,266,342,385,411,445,489,519,539,559,586,607,622},{0,48,108,140,159,217,285,327,354,385,427,457,478,497,524,545,561},{0,138,247,290,308,419,531,584,609,655,710,742,759,780,807,825,836},{0,16,40,62,79,103,139,170,195,215,245,270,290,305,327,346,362},{0,579,729,741,743,897,970,980,982,996,1007,1010,1011,1014,1017,1018,1019},{0,398,582,607,612,788,902,925,931,956,979,987,990,996,1002,1005,1007},{0,13,34,52,63,83,112,134,149,163,183,199,211,221,235,247,257},{0,281,464,501,510,681,820,857,867,902,938,953,959,968,978,984,987},{0,198,362,408,421,575,722,773,789,832,881,905,915,928,944,954,959},{0,1,2,95,139,140,141,213,251,337,407,450,475,515,551,576,592},{0,133,274,338,366,483,605,664,691,730,778,807,822,837,857,870,878},{0,128,253,302,320,443,577,636,659,708,767,799,814,833,857,872,881},{0,1,2,25,42,43,44,67,85,105,126,144,159,174,191,205,217},{0,70,166,229,267,356,468,533,569,606,653,685,705,722,745,762,774},{0,55,130,175,200,268,358,416,449,488,542,581,606,628,659,683,699},{0,1,3,5,7,9,11,13,15,17,19,21,23,25,27,29,31},{0,34,85,123,147,196,265,317,352,386,433,470,497,518,549,574,593},{0,30,73,105,127,170,229,274,305,335,377,411,436,455,483,506,524},{0,9,24,38,51,65,87,108,126,139,159,177,193,204,221,236,250},{0,30,74,105,125,166,224,266,294,322,361,391,413,431,457,478,494},{0,15,38,58,73,95,128,156,178,196,222,245,263,276,296,314,329},{0,11,28,44,57,74,100,123,142,157,179,199,216,228,246,262,276},{0,448,619,639,643,821,926,944,948,971,991,998,1000,1005,1010,1012,1013},{0,332,520,549,555,741,874,903,910,940,970,981,985,991,998,1002,1004},{0,8,21,34,45,58,78,96,112,124,141,157,170,180,194,207,219},{0,239,415,457,468,631,776,820,833,872,914,933,940,951,964,971,975},{0,165,310,359,375,513,652,707,727,774,828,856,868,884,904,916,923},{0,3,8,13,18,23,30,37,44,48,55,62,68,72,78,84,90},{0,115,237,289,311,422,547,608,635,680,737,771,788,807,832,849,859},{0,107,221,272,293,399,521,582,610,656,714,749,767,787,813,831,842},{0,6,16,26,35,45,60,75,89,98,112,125,137,145,157,168,178},{0,72,160,210,236,320,422,482,514,555,608,644,665,685,712,732,745},{0,45,108,153,183,244,327,385,421,455,502,536,559,578,605,626,641},{0,1,2,9,16,17,18,26,34,40,48,55,62,68,75,82,88},{0,29,73,108,132,174,236,284,318,348,391,426,452,471,500,524,543},{0,20,51,76,93,123,166,200,225,247,279,305,326,342,365,385,401},{0,742,845,850,851,959,997,1001,1002,1009,1014,1016,1017,1019,1020,1021,1022},{0,42,94,121,137,186,244,280,303,330,366,392,410,427,451,470,484},{0,13,33,51,66,85,114,140,161,178,203,225,243,256,275,292,307},{0,501,670,689,693,848,936,952,956,975,991,997,999,1004,1008,1010,1011},{0,445,581,603,609,767,865,888,895,926,954,964,968,977,986,991,993},{0,285,442,479,489,650,779,818,830,870,912,930,937,949,963,971,975},{0,349,528,561,569,731,852,883,892,923,953,965,970,978,987,992,994},{0,199,355,402,417,563,700,750,767,811,860,884,894,909,926,936,942},{0,141,275,325,343,471,606,664,686,734,791,822,836,854,877,891,899},{0,243,437,493,510,649,775,820,836,869,905,923,931,941,953,960,964},{0,91,197,248,271,370,487,550,580,625,684,721,741,761,788,807,819},{0,107,201,242,262,354,451,503,531,573,626,660,680,701,730,751,765},{0,168,339,407,432,553,676,731,755,789,830,854,866,879,895,906,912},{0,67,147,191,214,290,384,441,472,513,567,604,627,648,678,700,715},{0,46,109,148,171,229,307,359,391,427,476,513,537,558,588,612,629},{0,848,918,920,921,996,1012,1013,1014,1016,1017,1018,1019,1020,1021,1022,1023},{0,36,88,123,145,193,260,308,340,372,417,452,476,496,525,548,565},{0,24,61,90,110,145,196,237,266,292,330,361,385,403,430,453,471},{0,85,182,230,253,344,454,515,545,590,648,685,706,727,756,776,789},{0,22,55,82,102,135,183,222,252,278,315,345,368,385,410,431,448},{0,1,2,56,89,90,91,140,172,221,268,303,328,358,388,412,430},{0,45,109,152,177,239,320,376,411,448,499,537,563,585,616,640,658},{0,247,395,433,445,599,729,771,785,829,875,896,905,920,937,946,951},{0,231,367,408,423,557,676,723,742,786,835,860,872,889,909,921,928}};
static const double LTPF_N_8K[4][3] = {{0.602361821,0.419760926,-0.0188342453},{0.599476858,0.419760926,-0.0159492828},{0.596776466,0.419760926,-0.013248891},{0.594241012,0.419760926,-0.0107134366}};
static const double LTPF_D_8K[4][5] = {{0,0.209880463,0.583527575,0.209880463,0},{0,0.106999186,0.550075002,0.335690625,0.00669885837},{0,0.0396711478,0.45922093,0.45922093,0.0396711478},{0,0.00669885837,0.335690625,0.550075002,0.106999186}};
static const double LTPF_N_16K[4][3] = {{0.602361821,0.419760926,-0.0188342453},{0.599476858,0.419760926,-0.0159492828},{0.596776466,0.419760926,-0.013248891},{0.594241012,0.419760926,-0.0107134366}};
static const double LTPF_D_16K[4][5] = {{0,0.209880463,0.583527575,0.209880463,0},{0,0.106999186,0.550075002,0.335690625,0.00669885837},{0,0.0396711478,0.45922093,0.45922093,0.0396711478},{0,0.00669885837,0.335690625,0.550075002,0.106999186}};
static const double LTPF_N_24K[4][5] = {{0.398969559,0.514250861,0.100438297,-0.0127889396,-0.00157228008},{0.394863491,0.512381921,0.104319493,-0.0109199996,-0.00134740833},{0.390984448,0.510605352,0.107983252,-0.00914343107,-0.00113212462},{0.387309389,0.508912208,0.111451738,-0.00745028713,-0.000925551405}};
static const double LTPF_D_24K[4][7] = {{0,0.0632223163,0.250730961,0.371390943,0.250730961,0.0632223163,0},{0,0.0345927217,0.19865156,0.362641173,0.298675055,0.101309287,0.00426354371},{0,0.0153574678,0.147434488,0.337425955,0.337425955,0.147434488,0.0153574678},{0,0.00426354371,0.101309287,0.298675055,0.362641173,0.19865156,0.0345927217}};
static const double LTPF_N_32K[4][7] = {{0.298237945,0.46528092,0.210599743,0.0376678038,-0.0101569616,-0.002535881,-0.000318294617},{0.294383415,0.4619294,0.212946577,0.04066175,-0.0086932723,-0.00217830711,-0.000274288806},{0.290743921,0.458746191,0.215145697,0.0435010477,-0.00729549535,-0.00183439564,-0.000231692019},{0.287297585,0.455714889,0.217212695,0.0462008888,-0.0059574638,-0.00150293428,-0.000190385191}};
static const double LTPF_D_32K[4][9] = {{0,0.0290040188,0.112985742,0.221202403,0.272390947,0.221202403,0.112985742,0.0290040188,0},{0,0.0170315342,0.0872250379,0.196140776,0.268923798,0.24249991,0.140577336,0.0447487717,0.00312703024},{0,0.00856367375,0.0642622294,0.168767671,0.258744594,0.258744594,0.168767671,0.0642622294,0.00856367375},{0,0.00312703024,0.0447487717,0.140577336,0.24249991,0.268923798,0.196140776,0.0872250379,0.0170315342}};
static const double LTPF_N_48K[4][11] = {{0.198136374,0.35244949,0.251369527,0.142414624,0.0570473102,0.00929336624,-0.00722602537,-0.00317267989,-0.00112183596,-0.000290295724,-4.27081559e-05},{0.195070943,0.348466041,0.250998846,0.144116741,0.0592894732,0.0110892383,-0.00619290811,-0.00272670551,-0.000966712583,-0.000250810092,-3.69993877e-05},{0.192181006,0.344694556,0.250622009,0.145710245,0.0614113213,0.012799414,-0.00520372109,-0.00229732451,-0.000816560813,-0.000212385575,-3.14127133e-05},{0.189448531,0.341113925,0.250240688,0.147206563,0.0634247723,0.0144320343,-0.00425444914,-0.00188308147,-0.000670961906,-0.000174936334,-2.59386474e-05}};
static const double LTPF_D_48K[4][13] = {{0,0.0108235939,0.0360896922,0.0767640147,0.124153058,0.162759644,0.177677142,0.162759644,0.124153058,0.0767640147,0.0360896922,0.0108235939,0},{0,0.00704140493,0.0281970232,0.0654704494,0.112464799,0.154841896,0.176712238,0.169150721,0.135290158,0.0885142501,0.0449935385,0.0155761371,0.00203972196},{0,0.00414699847,0.0213575731,0.0548273558,0.100497144,0.145606034,0.173843984,0.173843984,0.145606034,0.100497144,0.0548273558,0.0213575731,0.00414699847},{0,0.00203972196,0.0155761371,0.0449935385,0.0885142501,0.135290158,0.169150721,0.176712238,0.154841896,0.112464799,0.0654704494,0.0281970232,0.00704140493}};
static const double LTPF_H12K8[239] = {-2.04305583e-05,-4.46345894e-05,-7.16366399e-05,-0.000100101113,-0.000128372848,-0.00015454383,-0.000176544567,-0.00019225696,-0.000199643819,-0.000196888686,-0.000182538332,-0.000155639427,-0.000115860365,-6.35893034e-05,2.8100648e-19,7.29218021e-05,0.000152397076,0.000234920777,0.00031637865,0.000392211738,0.000457623849,0.000507824294,0.000538295523,0.000545072918,0.000525022155,0.000476098424,0.00039757138,0.000290200217,0.000156344667,-5.81880142e-19,-0.000173252713,-0.000356385965,-0.000541155231,-0.000718414023,-0.000878505232,-0.00101171451,-0.00110876706,-0.00116134522,-0.00116260169,-0.00110764097,-0.000993941563,-0.00082169219,-0.000594017766,-0.000317074654,9.74695082e-19,0.00034529376,0.000704480871,0.00106133447,0.00139837473,0.0016976308,0.00194148675,0.00211357591,0.00219968245,0.00218860625,0.00207294546,0.00184975249,0.00152102188,0.00109397426,0.000581108062,-1.42248266e-18,-0.00062715373,-0.0012742514,-0.00191223839,-0.00251026925,-0.0030370383,-0.00346222687,-0.00375800672,-0.00390053247,-0.00387135231,-0.00365866558,-0.00325835851,-0.00267475555,-0.00192103305,-0.00101925433,1.86962369e-18,0.00109841545,0.00223113197,0.00334830927,0.00439702277,0.00532342672,0.00607510531,0.00660352025,0.00686645399,0.0068303427,0.00647239234,0.00578237521,0.00476401273,0.00343586351,0.00183165284,-2.25189837e-18,-0.00199647619,-0.00408266886,-0.00617308037,-0.00817444895,-0.00998882386,-0.0115169871,-0.0126621006,-0.0133334458,-0.013450112,-0.0129444881,-0.0117654154,-0.00988086732,-0.0072800364,-0.00397473021,2.50961778e-18,0.00458604422,0.009703249,0.0152512477,0.0211120585,0.0271533724,0.0332324245,0.0392003203,0.0449066644,0.0502043309,0.0549542017,0.0590297032,0.0623209727,0.0647385023,0.0662161245,0.0667132287,0.0662161245,0.0647385023,0.0623209727,0.0590297032,0.0549542017,0.0502043309,0.0449066644,0.0392003203,0.0332324245,0.0271533724,0.0211120585,0.0152512477,0.009703249,0.00458604422,2.50961778e-18,-0.00397473021,-0.0072800364,-0.00988086732,-0.0117654154,-0.0129444881,-0.013450112,-0.0133334458,-0.0126621006,-0.0115169871,-0.00998882386,-0.00817444895,-0.00617308037,-0.00408266886,-0.00199647619,-2.25189837e-18,0.00183165284,0.00343586351,0.00476401273,0.00578237521,0.00647239234,0.0068303427,0.00686645399,0.00660352025,0.00607510531,0.00532342672,0.00439702277,0.00334830927,0.00223113197,0.00109841545,1.86962369e-18,-0.00101925433,-0.00192103305,-0.00267475555,-0.00325835851,-0.00365866558,-0.00387135231,-0.00390053247,-0.00375800672,-0.00346222687,-0.0030370383,-0.00251026925,-0.00191223839,-0.0012742514,-0.00062715373,-1.42248266e-18,0.000581108062,0.00109397426,0.00152102188,0.00184975249,0.00207294546,0.00218860625,0.00219968245,0.00211357591,0.00194148675,0.0016976308,0.00139837473,0.00106133447,0.000704480871,0.00034529376,9.74695082e-19,-0.000317074654,-0.000594017766,-0.00082169219,-0.000993941563,-0.00110764097,-0.00116260169,-0.00116134522,-0.00110876706,-0.00101171451,-0.000878505232,-0.000718414023,-0.000541155231,-0.000356385965,-0.000173252713,-5.81880142e-19,0.000156344667,0.000290200217,0.00039757138,0.000476098424,0.000525022155,0.000545072918,0.000538295523,0.000507824294,0.000457623849,0.000392211738,0.00031637865,0.000234920777,0.000152397076,7.29218021e-05,2.8100648e-19,-6.35893034e-05,-0.000115860365,-0.000155639427,-0.000182538332,-0.000196888686,-0.000199643819,-0.00019225696,-0.000176544567,-0.00015454383,-0.000128372848,-0.000100101113,-7.16366399e-05,-4.46345894e-05,-2.04305583e-05};
static const double LTPF_H4[31] = {-0.00287456116,-0.00300125103,0.00274547165,0.015357277,0.0286823405,0.0295038503,0.00459833449,-0.0472963246,-0.105835916,-0.130305021,-0.0754404636,0.0835788573,0.330182571,0.603297008,0.817488686,0.898638285,0.817488686,0.603297008,0.330182571,0.0835788573,-0.0754404636,-0.130305021,-0.105835916,-0.0472963246,0.00459833449,0.0295038503,0.0286823405,0.015357277,0.00274547165,-0.00300125103,-0.00287456116};
static const double LTPF_HI[15] = {0.00669885837,0.0396711478,0.106999186,0.209880463,0.335690625,0.45922093,0.550075002,0.583527575,0.550075002,0.45922093,0.335690625,0.209880463,0.106999186,0.0396711478,0.00669885837};
