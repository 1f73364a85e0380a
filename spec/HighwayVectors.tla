-------------------------- MODULE HighwayVectors --------------------------
(* The published HighwayHash test vectors: the key of the reference test,   *)
(* data = 0, 1, .., n-1 for n = 0..64.  An ASSUME per width: TLC fails if   *)
(* HighwayHash.tla does not reproduce them.                                 *)
EXTENDS HighwayHash, TLC
TestKey == << <<0,1,2,3,4,5,6,7>>, <<8,9,10,11,12,13,14,15>>,
              <<16,17,18,19,20,21,22,23>>, <<24,25,26,27,28,29,30,31>> >>
TestData(n) == [i \in 1..n |-> i - 1]
Expected64 == <<
  <<<<83,110,194,34,222,86,122,144>>>>,
  <<<<120,221,205,199,170,67,171,126>>>>,
  <<<<98,61,181,176,154,86,208,184>>>>,
  <<<<128,61,70,138,171,239,107,92>>>>,
  <<<<218,126,0,147,104,164,5,242>>>>,
  <<<<65,69,169,228,104,22,138,43>>>>,
  <<<<111,202,239,91,50,204,76,189>>>>,
  <<<<130,148,245,56,23,174,2,77>>>>,
  <<<<113,49,95,229,8,81,32,225>>>>,
  <<<<132,21,122,199,78,100,210,50>>>>,
  <<<<11,169,3,177,205,10,225,246>>>>,
  <<<<21,92,65,91,97,244,187,195>>>>,
  <<<<156,250,99,0,4,194,60,36>>>>,
  <<<<255,65,230,101,206,88,154,168>>>>,
  <<<<35,90,69,72,163,49,176,36>>>>,
  <<<<59,243,73,164,134,63,121,64>>>>,
  <<<<50,184,126,249,137,52,171,207>>>>,
  <<<<226,192,197,200,210,103,254,25>>>>,
  <<<<194,92,86,156,166,144,221,4>>>>,
  <<<<4,197,113,35,142,81,217,117>>>>,
  <<<<22,221,211,65,17,155,173,56>>>>,
  <<<<224,112,138,205,44,67,100,2>>>>,
  <<<<144,51,104,136,98,90,219,169>>>>,
  <<<<140,2,63,0,146,84,176,215>>>>,
  <<<<30,229,89,234,90,97,95,32>>>>,
  <<<<132,40,5,33,150,200,224,238>>>>,
  <<<<79,79,40,167,147,26,252,27>>>>,
  <<<<29,169,13,183,181,117,33,81>>>>,
  <<<<57,198,162,160,118,137,31,247>>>>,
  <<<<231,227,132,31,239,63,9,174>>>>,
  <<<<15,134,97,17,176,146,202,34>>>>,
  <<<<104,90,3,207,124,0,199,159>>>>,
  <<<<252,128,213,236,217,100,201,160>>>>,
  <<<<252,129,49,160,60,247,144,44>>>>,
  <<<<158,235,145,86,78,248,92,24>>>>,
  <<<<155,170,82,39,239,245,193,79>>>>,
  <<<<235,51,10,94,26,57,183,245>>>>,
  <<<<156,108,233,180,131,75,184,185>>>>,
  <<<<180,217,92,42,113,254,66,94>>>>,
  <<<<220,151,63,12,249,242,80,161>>>>,
  <<<<125,99,45,94,215,34,165,127>>>>,
  <<<<43,211,255,13,204,208,26,24>>>>,
  <<<<40,64,133,30,152,237,137,56>>>>,
  <<<<45,238,134,197,232,151,66,251>>>>,
  <<<<156,5,40,187,69,74,6,109>>>>,
  <<<<12,134,236,179,9,54,86,144>>>>,
  <<<<102,198,151,64,233,252,164,122>>>>,
  <<<<8,30,145,107,192,186,38,19>>>>,
  <<<<52,79,21,43,141,22,38,185>>>>,
  <<<<141,148,177,69,137,132,25,153>>>>,
  <<<<190,94,130,52,197,143,169,162>>>>,
  <<<<182,240,62,33,149,144,128,233>>>>,
  <<<<233,192,123,112,131,84,46,88>>>>,
  <<<<245,106,138,168,20,148,110,8>>>>,
  <<<<61,116,246,32,141,185,134,238>>>>,
  <<<<167,192,177,9,246,127,155,248>>>>,
  <<<<232,195,34,158,193,156,125,76>>>>,
  <<<<111,42,86,36,80,0,151,154>>>>,
  <<<<239,235,230,35,244,28,212,93>>>>,
  <<<<39,226,104,4,156,96,19,223>>>>,
  <<<<90,21,136,65,246,164,13,110>>>>,
  <<<<161,212,215,80,75,186,85,183>>>>,
  <<<<189,121,116,100,132,52,122,136>>>>,
  <<<<160,57,33,191,233,235,142,171>>>>,
  <<<<255,166,210,76,93,44,84,117>>>> >>
Expected128 == <<
  <<<<199,254,143,157,143,38,237,15>>, <<111,62,9,127,118,94,86,51>>>>,
  <<<<168,231,129,54,137,168,176,214>>, <<180,220,156,235,249,29,41,220>>>>,
  <<<<4,218,22,90,38,173,21,61>>, <<104,232,50,220,56,86,8,120>>>>,
  <<<<235,11,95,41,27,98,7,6>>, <<121,221,206,217,15,154,230,191>>>>,
  <<<<158,228,172,109,180,158,57,38>>, <<8,146,49,57,208,42,146,46>>>>,
  <<<<216,46,209,134,195,189,80,50>>, <<58,194,99,108,144,16,56,25>>>>,
  <<<<71,101,137,203,179,106,71,111>>, <<25,16,237,55,111,87,222,124>>>>,
  <<<<180,113,113,105,202,31,64,42>>, <<108,121,2,159,255,3,31,190>>>>,
  <<<<232,82,5,40,132,109,233,161>>, <<194,10,236,59,198,241,92,105>>>>,
  <<<<178,99,30,243,2,33,42,20>>, <<204,0,80,91,140,185,133,26>>>>,
  <<<<91,188,182,38,14,183,161,81>>, <<89,85,164,45,59,31,158,146>>>>,
  <<<<91,65,154,5,98,3,153,136>>, <<19,125,123,196,34,31,210,190>>>>,
  <<<<102,149,175,28,95,31,31,205>>, <<212,200,249,224,140,186,24,168>>>>,
  <<<<87,97,254,18,65,86,37,162>>, <<72,184,221,184,120,76,233,178>>>>,
  <<<<25,9,204,209,235,47,73,189>>, <<162,65,86,2,188,29,205,206>>>>,
  <<<<84,175,196,43,165,55,34,20>>, <<215,188,38,110,11,108,121,224>>>>,
  <<<<173,1,164,213,255,96,68,65>>, <<200,24,159,1,213,163,158,2>>>>,
  <<<<98,153,28,197,150,75,42,197>>, <<160,94,155,22,177,120,184,236>>>>,
  <<<<206,234,251,17,143,202,64,217>>, <<49,213,248,22,214,70,58,249>>>>,
  <<<<245,203,192,229,10,157,196,138>>, <<147,124,29,245,141,191,253,63>>>>,
  <<<<168,0,45,133,155,39,109,172>>, <<70,170,235,165,107,58,205,125>>>>,
  <<<<86,138,240,147,189,33,22,241>>, <<213,217,61,22,152,195,115,49>>>>,
  <<<<159,248,140,246,80,226,76,12>>, <<237,152,24,65,218,60,18,179>>>>,
  <<<<206,81,154,61,237,151,171,21>>, <<14,8,105,145,71,116,226,124>>>>,
  <<<<184,69,72,141,25,30,0,205>>, <<119,45,170,216,139,217,217,208>>>>,
  <<<<121,61,73,160,23,214,243,52>>, <<22,126,127,57,246,4,211,125>>>>,
  <<<<182,198,244,169,144,104,181,92>>, <<79,48,103,101,22,41,8,19>>>>,
  <<<<192,209,91,36,139,111,218,48>>, <<140,116,217,63,126,139,130,111>>>>,
  <<<<192,18,76,32,73,3,88,224>>, <<28,68,95,172,12,218,246,147>>>>,
  <<<<69,48,7,165,27,115,72,246>>, <<118,89,182,79,17,151,184,95>>>>,
  <<<<6,82,138,115,84,131,79,2>>, <<145,9,126,235,24,73,154,80>>>>,
  <<<<41,124,165,232,101,180,231,6>>, <<70,212,245,7,58,94,65,82>>>>,
  <<<<170,74,67,193,102,223,132,25>>, <<185,228,179,249,88,25,252,22>>>>,
  <<<<108,195,198,224,175,120,22,17>>, <<157,132,162,229,157,181,88,249>>>>,
  <<<<144,4,251,64,132,188,63,119>>, <<54,133,101,67,210,213,110,201>>>>,
  <<<<65,201,182,11,113,220,227,145>>, <<233,172,238,193,11,106,51,234>>>>,
  <<<<212,217,122,93,129,227,207,37>>, <<158,197,143,130,140,79,233,242>>>>,
  <<<<242,136,194,60,184,56,251,185>>, <<4,236,80,248,200,196,121,116>>>>,
  <<<<140,43,152,37,197,213,133,29>>, <<244,219,72,111,193,177,38,110>>>>,
  <<<<231,189,96,96,189,85,78,138>>, <<208,63,139,5,153,213,52,33>>>>,
  <<<<54,143,119,148,249,143,149,42>>, <<35,100,29,230,26,45,5,232>>>>,
  <<<<51,50,69,190,230,58,35,137>>, <<185,192,232,215,135,156,207,58>>>>,
  <<<<213,200,169,126,226,245,88,68>>, <<64,81,42,202,155,180,143,65>>>>,
  <<<<104,42,209,126,131,1,3,9>>, <<230,97,200,51,150,246,23,16>>>>,
  <<<<144,149,212,4,71,216,13,51>>, <<228,166,75,58,173,241,157,51>>>>,
  <<<<118,197,242,99,166,99,147,86>>, <<246,94,201,227,149,61,59,54>>>>,
  <<<<55,7,185,134,133,208,200,172>>, <<233,40,78,125,8,232,160,43>>>>,
  <<<<32,149,109,200,39,122,194,57>>, <<46,147,96,81,164,32,182,141>>>>,
  <<<<45,7,26,103,235,74,106,142>>, <<230,126,228,16,26,86,211,110>>>>,
  <<<<74,199,190,177,101,215,17,0>>, <<46,132,222,110,101,110,14,216>>>>,
  <<<<76,198,106,147,43,214,21,37>>, <<125,138,8,215,148,135,8,206>>>>,
  <<<<175,35,110,193,82,21,98,145>>, <<239,204,35,235,148,0,79,38>>>>,
  <<<<128,52,38,151,13,136,33,30>>, <<134,16,163,211,7,72,101,216>>>>,
  <<<<45,67,127,9,175,106,215,57>>, <<57,71,7,157,224,225,23,165>>>>,
  <<<<20,90,198,55,243,164,23,15>>, <<212,118,249,105,95,33,81,47>>>>,
  <<<<68,94,137,18,218,92,251,160>>, <<209,60,241,209,196,61,140,86>>>>,
  <<<<206,70,156,216,0,252,200,147>>, <<105,14,51,126,148,218,213,186>>>>,
  <<<<148,86,26,29,80,7,124,129>>, <<43,172,191,44,231,110,77,88>>>>,
  <<<<191,83,240,115,175,104,214,145>>, <<237,224,193,131,118,100,142,249>>>>,
  <<<<139,207,60,107,239,225,129,82>>, <<216,131,96,22,223,195,76,188>>>>,
  <<<<185,238,170,190,109,27,214,170>>, <<123,120,22,12,0,157,150,255>>>>,
  <<<<121,88,71,192,79,216,37,67>>, <<45,28,95,144,189,25,185,20>>>>,
  <<<<209,166,107,170,209,118,161,121>>, <<134,43,58,165,197,32,247,241>>>>,
  <<<<240,62,47,2,24,112,189,116>>, <<203,75,95,173,168,148,234,58>>>>,
  <<<<242,196,212,152,113,31,187,152>>, <<200,143,145,222,113,5,188,224>>>> >>
Expected256 == <<
  <<<<245,116,200,194,42,72,68,221>>, <<31,53,199,19,115,1,70,217>>, <<255,20,135,185,204,190,174,179>>, <<244,29,117,69,49,35,218,65>>>>,
  <<<<84,130,95,228,188,65,185,237>>, <<15,198,202,61,239,68,13,226>>, <<71,74,50,203,155,27,101,114>>, <<132,228,117,178,76,98,115,32>>>>,
  <<<<84,228,175,36,223,249,223,63>>, <<115,232,10,27,26,191,196,17>>, <<122,89,34,105,204,105,81,17>>, <<44,180,51,13,89,246,8,18>>>>,
  <<<<92,217,209,13,215,160,10,72>>, <<208,209,17,105,124,94,34,137>>, <<90,134,187,139,107,66,168,142>>, <<34,199,225,144,195,251,61,226>>>>,
  <<<<220,228,43,33,151,196,207,201>>, <<155,146,210,175,246,157,95,168>>, <<158,16,244,29,33,159,218,31>>, <<155,79,77,55,122,39,228,7>>>>,
  <<<<179,133,220,164,102,245,180,180>>, <<66,1,70,94,186,99,75,191>>, <<227,29,220,205,104,142,244,21>>, <<198,133,128,56,125,88,116,15>>>>,
  <<<<180,185,173,134,10,199,69,100>>, <<182,206,180,132,39,251,156,169>>, <<19,219,178,160,64,157,226,218>>, <<112,17,157,154,242,109,82,182>>>>,
  <<<<129,173,135,9,160,177,102,214>>, <<55,109,140,235,56,248,241,164>>, <<48,224,99,212,7,110,34,233>>, <<108,82,44,6,125,214,84,87>>>>,
  <<<<192,139,118,237,176,5,185,241>>, <<69,58,255,252,243,111,151,230>>, <<120,151,208,217,141,81,190,79>>, <<51,13,30,55,235,175,160,217>>>>,
  <<<<129,41,60,13,215,228,216,128>>, <<161,241,36,100,209,187,15,241>>, <<209,12,63,157,190,45,92,207>>, <<242,115,182,1,247,232,191,192>>>>,
  <<<<190,98,162,229,80,140,228,173>>, <<224,56,254,253,177,146,148,142>>, <<56,184,233,47,75,183,132,7>>, <<205,109,101,219,116,213,65,14>>>>,
  <<<<207,7,24,83,185,119,190,161>>, <<56,151,26,106,222,167,151,186>>, <<31,38,142,156,239,76,39,175>>, <<232,232,76,199,53,185,57,62>>>>,
  <<<<87,88,64,227,2,56,173,21>>, <<160,83,232,57,220,203,17,157>>, <<37,178,49,60,153,62,234,35>>, <<46,33,244,202,227,233,217,108>>>>,
  <<<<54,124,215,177,94,111,201,1>>, <<166,149,31,83,193,249,103,163>>, <<184,220,218,124,66,163,148,31>>, <<211,213,59,191,10,0,241,151>>>>,
  <<<<65,142,255,238,30,233,21,8>>, <<93,223,33,110,250,40,12,14>>, <<116,83,9,237,98,142,173,78>>, <<230,115,157,28,218,1,253,63>>>>,
  <<<<46,96,66,120,112,5,25,193>>, <<70,177,1,133,1,219,195,98>>, <<193,6,52,250,23,173,245,133>>, <<71,195,254,212,123,248,132,200>>>>,
  <<<<31,205,182,161,137,217,26,245>>, <<217,123,98,42,214,117,240,247>>, <<6,138,242,121,245,213,1,126>>, <<159,77,23,106,193,21,212,26>>>>,
  <<<<142,6,164,44,168,207,244,25>>, <<185,117,146,58,189,74,157,59>>, <<198,16,192,233,221,176,0,128>>, <<19,86,33,73,9,213,132,136>>>>,
  <<<<93,159,171,129,127,108,109,18>>, <<238,22,119,9,197,163,218,78>>, <<73,62,221,167,115,21,18,175>>, <<45,195,128,170,133,172,1,144>>>>,
  <<<<250,85,145,20,249,190,170,6>>, <<61,28,231,68,65,79,134,223>>, <<218,100,188,96,232,188,186,253>>, <<182,28,73,146,71,165,43,222>>>>,
  <<<<219,159,7,53,64,107,252,173>>, <<101,110,72,142,50,183,135,160>>, <<234,35,70,90,147,169,209,70>>, <<68,238,60,13,68,92,137,227>>>>,
  <<<<223,179,163,238,29,211,249,181>>, <<51,225,6,10,226,36,48,143>>, <<32,225,143,40,200,56,76,242>>, <<73,151,214,155,207,29,63,112>>>>,
  <<<<227,239,148,71,133,11,60,43>>, <<160,206,218,155,150,63,93,28>>, <<46,172,99,165,175,106,241,129>>, <<117,48,208,121,90,28,68,35>>>>,
  <<<<98,55,253,147,199,248,138,65>>, <<36,249,215,97,148,142,107,188>>, <<120,158,26,42,106,242,111,119>>, <<110,202,23,212,191,183,160,58>>>>,
  <<<<193,163,85,210,42,234,3,205>>, <<42,27,156,181,229,254,133,1>>, <<228,115,151,79,212,56,244,209>>, <<228,118,59,248,103,221,105,190>>>>,
  <<<<251,160,135,56,135,168,81,249>>, <<174,224,72,165,210,49,123,44>>, <<250,110,24,182,56,56,128,68>>, <<114,159,33,190,199,142,199,163>>>>,
  <<<<8,140,13,234,81,241,143,149>>, <<136,52,246,180,151,137,126,75>>, <<109,56,197,81,67,7,142,199>>, <<250,238,32,111,85,119,85,217>>>>,
  <<<<6,84,176,127,128,23,169,41>>, <<140,87,31,53,132,248,24,51>>, <<250,167,246,246,110,234,36,221>>, <<255,174,151,94,70,147,67,231>>>>,
  <<<<203,108,94,147,128,8,36,152>>, <<218,151,159,176,113,210,208,31>>, <<131,177,0,39,71,134,231,86>>, <<23,120,116,159,249,73,22,41>>>>,
  <<<<86,197,84,112,79,149,212,27>>, <<235,108,89,124,255,46,219,255>>, <<91,107,171,27,154,198,106,124>>, <<83,193,127,83,112,118,3,15>>>>,
  <<<<152,116,89,151,136,227,37,136>>, <<193,50,99,175,235,246,124,100>>, <<23,201,40,220,3,217,43,85>>, <<171,197,191,0,44,99,215,114>>>>,
  <<<<77,100,26,96,118,226,128,104>>, <<218,183,15,177,32,139,114,179>>, <<110,209,16,6,6,18,189,208>>, <<242,46,69,51,239,20,239,138>>>>,
  <<<<254,195,161,57,144,140,227,188>>, <<137,18,193,163,38,99,213,66>>, <<169,174,252,100,247,149,85,227>>, <<153,90,71,201,107,60,176,201>>>>,
  <<<<229,166,52,240,203,21,1,246>>, <<208,70,206,191,117,234,54,108>>, <<144,89,114,130,211,200,23,59>>, <<53,122,0,17,237,162,218,126>>>>,
  <<<<162,222,249,237,89,233,38,19>>, <<12,114,159,115,1,104,119,196>>, <<47,246,98,215,15,80,105,81>>, <<171,41,37,10,217,208,13,138>>>>,
  <<<<212,66,212,3,213,73,81,147>>, <<68,209,218,2,19,180,107,255>>, <<236,54,157,205,18,176,156,51>>, <<48,34,204,158,97,83,29,230>>>>,
  <<<<150,182,80,170,136,200,139,82>>, <<252,225,132,96,163,236,174,184>>, <<118,52,36,192,30,21,88,161>>, <<68,236,124,9,173,74,193,2>>>>,
  <<<<39,195,23,34,167,136,214,190>>, <<63,135,96,247,20,81,230,30>>, <<166,2,48,125,179,38,92,63>>, <<185,151,21,99,149,232,242,221>>>>,
  <<<<173,81,11,43,207,33,219,231>>, <<108,171,176,244,36,99,252,250>>, <<91,156,45,194,68,114,133,176>>, <<156,132,5,30,141,136,173,240>>>>,
  <<<<0,203,77,205,147,151,81,5>>, <<235,125,6,99,49,74,89,60>>, <<52,158,17,207,26,8,117,172>>, <<148,176,92,128,151,98,200,90>>>>,
  <<<<158,119,181,34,140,141,34,9>>, <<132,126,107,81,178,77,100,25>>, <<160,65,49,248,171,200,146,43>>, <<145,147,225,37,215,90,120,127>>>>,
  <<<<75,167,208,70,93,46,196,89>>, <<100,96,3,202,101,60,165,94>>, <<180,174,53,182,107,145,169,72>>, <<212,233,84,63,20,223,230,186>>>>,
  <<<<227,208,3,109,105,35,182,94>>, <<146,160,29,180,188,120,61,213>>, <<13,177,246,82,220,72,35,254>>, <<17,140,44,99,87,36,128,100>>>>,
  <<<<129,84,184,196,178,27,182,67>>, <<161,128,126,113,37,140,49,198>>, <<125,104,156,111,77,127,74,140>>, <<124,29,64,53,224,23,2,189>>>>,
  <<<<55,76,130,67,87,202,81,127>>, <<58,112,29,177,94,77,76,176>>, <<105,243,246,203,30,30,81,77>>, <<226,86,84,33,234,117,103,214>>>>,
  <<<<204,69,126,248,238,9,180,57>>, <<179,121,252,89,196,232,184,82>>, <<36,140,133,209,24,9,146,68>>, <<73,1,238,94,100,123,240,128>>>>,
  <<<<20,213,154,190,209,148,134,206>>, <<231,54,104,82,38,144,161,191>>, <<125,42,144,228,246,253,164,30>>, <<254,225,150,214,88,68,12,56>>>>,
  <<<<164,160,35,248,139,225,137,209>>, <<215,167,1,229,59,53,59,31>>, <<132,40,46,224,180,119,79,162>>, <<12,24,249,116,111,100,148,126>>>>,
  <<<<72,236,37,211,53,198,248,175>>, <<11,141,3,20,164,10,46,44>>, <<103,116,68,26,97,127,211,78>>, <<137,20,80,59,227,56,236,57>>>>,
  <<<<151,241,131,95,173,253,43,42>>, <<204,116,242,190,110,62,61,1>>, <<85,97,114,119,4,60,86,225>>, <<126,3,50,233,93,138,90,241>>>>,
  <<<<50,99,18,200,30,249,209,213>>, <<17,255,177,249,155,11,17,16>>, <<50,96,28,84,38,171,117,161>>, <<82,21,112,40,87,220,186,135>>>>,
  <<<<132,40,8,216,44,169,181,199>>, <<251,238,46,27,182,42,166,221>>, <<47,115,174,254,236,130,152,143>>, <<251,79,31,192,92,189,56,107>>>>,
  <<<<240,50,61,115,117,242,110,207>>, <<139,125,191,162,45,130,240,163>>, <<106,64,18,245,53,116,78,48>>, <<45,23,179,235,239,227,40,11>>>>,
  <<<<219,233,178,1,7,248,152,230>>, <<40,136,138,154,129,42,174,102>>, <<201,242,184,201,36,144,234,20>>, <<164,181,62,82,112,97,65,167>>>>,
  <<<<183,237,7,227,135,126,145,58>>, <<193,82,68,227,218,222,180,23>>, <<112,204,17,231,98,241,137,246>>, <<14,221,156,120,254,107,206,41>>>>,
  <<<<142,93,21,203,216,58,255,14>>, <<162,68,8,76,173,158,205,71>>, <<235,33,254,230,14,228,200,70>>, <<81,10,52,240,93,194,243,222>>>>,
  <<<<77,208,130,43,230,134,253,3>>, <<109,19,23,7,96,13,171,50>>, <<137,122,133,43,131,14,43,104>>, <<177,57,55,68,241,227,140,19>>>>,
  <<<<2,249,215,196,84,199,119,47>>, <<234,191,173,217,169,224,83,16>>, <<10,231,74,84,104,99,230,88>>, <<202,131,221,114,156,130,138,196>>>>,
  <<<<159,160,102,228,25,235,0,249>>, <<20,211,199,168,1,158,190,49>>, <<113,244,8,202,184,198,254,58>>, <<251,231,255,135,15,235,192,184>>>>,
  <<<<251,142,60,190,143,125,39,219>>, <<123,165,26,225,119,104,206,83>>, <<125,126,154,13,210,148,156,113>>, <<201,60,69,146,99,181,69,179>>>>,
  <<<<201,242,164,219,59,156,99,55>>, <<200,109,70,54,179,231,149,96>>, <<138,184,101,30,121,73,128,58>>, <<213,124,146,229,205,136,201,130>>>>,
  <<<<228,74,35,20,167,177,31,107>>, <<126,70,166,91,37,46,86,32>>, <<117,214,243,64,45,137,43,62>>, <<104,215,30,228,251,227,12,244>>>>,
  <<<<42,201,135,178,177,28,225,142>>, <<109,38,61,246,239,170,194,143>>, <<3,159,235,230,135,52,100,102>>, <<115,104,213,232,29,169,138,87>>>>,
  <<<<103,235,58,106,38,248,177,245>>, <<221,26,236,77,190,64,176,131>>, <<174,251,38,91,99,200,225,127>>, <<159,215,254,222,71,164,163,244>>>>,
  <<<<117,36,193,106,255,230,216,144>>, <<242,193,218,110,25,42,66,26>>, <<2,176,142,31,254,101,55,158>>, <<190,207,81,195,196,215,189,193>>>> >>

Check(w, expected) == \A n \in 0..64 : Hash(TestKey, TestData(n), w) = expected[n + 1]
ASSUME Check(64, Expected64)
ASSUME Check(128, Expected128)
ASSUME Check(256, Expected256)
\* the hash of nothing under the all-zero key
ZeroKey == <<Zero64, Zero64, Zero64, Zero64>>
ASSUME Hash(ZeroKey, <<>>, 64) = << <<105, 68, 213, 185, 117, 218, 53, 112>> >>
VARIABLE done
Init == done = TRUE
Next == UNCHANGED done
=============================================================================
